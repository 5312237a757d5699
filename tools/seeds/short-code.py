PROPERTY = 'P09'
NEEDS = 'a command that fails with an exit code whose low 16 bits are zero'
BREAKS = 'the failure counts as success'
EDITS = [('src/jomlib/jomprocess.cpp', '    m_exitCode = d->exitCode;\n', '    m_exitCode = static_cast<int>(d->exitCode << 16) >> 16;\n'), ('src/jomlib/jomprocess.cpp', '(m_exitCode == 0xf291 || m_exitCode < 0)', '(m_exitCode < 0)')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all:\n\ttool a\n\ttool b\n'}, {'a': [['x', 0x10000]], 'b': [['s', 100]]}, ['/NOLOGO', '/J', '2'])
    if l.code == 0 or l.find('tool b'): return 'exit code 65536 was taken for success'
