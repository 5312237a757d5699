PROPERTY = 'P14'
NEEDS = 'a variable that is assigned twice, in different spellings'
BREAKS = 'the later assignment may have no effect'
EDITS = [('src/jomlib/processenvironment.h', 'return m_key.compare(other.m_key, Qt::CaseInsensitive);', 'return m_key.compare(other.m_key);')]
def check(sim):
    for a, b in (('Abc', 'ABC'), ('ABC', 'Abc')):
        l = sim.run({'/w/p/Makefile': 'all:\n\tset %s=1\n\tset %s=2\n\ttool a\n' % (a, b)}, {'a': [['e', 'ABC'], ['s', 100]]}, ['/NOLOGO', '/J', '2'])
        e = l.all('env')
        if not e or e[0].get('v') != '2': return 'the variable is %s' % e
