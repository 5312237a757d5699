PROPERTY = 'P09'
NEEDS = 'a command with a numeric exit code modifier that crashes'
BREAKS = 'a crash does not count as exit code 2'
EDITS = [('src/jomlib/jomprocess.cpp', 'const bool crashed = (m_exitCode == 0xf291 || m_exitCode < 0);', 'const bool crashed = (m_exitCode == 0xf291);')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all:\n\t-2 tool a\n\ttool b\n'}, {'a': [['x', 0xc0000005]], 'b': [['s', 100]]}, ['/NOLOGO', '/J', '2'])
    if l.code or not l.find('tool b'): return 'exit code %s' % l.code
