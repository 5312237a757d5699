PROPERTY = 'P14'
NEEDS = 'a target whose last command is cd, and another target executed in the same job slot later'
BREAKS = 'the first command line of the other target runs in the wrong directory'
EDITS = [('src/jomlib/commandexecutor.cpp', '''    m_nextWorkingDir.clear();
    m_process.setWorkingDirectory(m_nextWorkingDir);
    if''', '''    m_process.setWorkingDirectory(QString());
    if''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all: a b\n\na :\n\ttool a\n\tcd sub\n\nb : a\n\ttool b\n'}, {'a': [['s', 100]], 'b': [['s', 100]]}, ['/NOLOGO', '/J', '1'], dirs=['/w/p/sub'])
    e = [x for x in l.all('spawn') if x['cmd'] == 'tool b']
    if e[0]['cwd'] != '/w/p': return 'b runs in ' + e[0]['cwd']
