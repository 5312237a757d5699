PROPERTY = 'P08'
NEEDS = '/K, several goals, and a failure in one that is not the last'
BREAKS = 'jom exits with 0'
EDITS = [('src/jomlib/targetexecutor.cpp', '''        m_allCommandsSuccessfullyExecuted = false;
        if (m_makefile->options()->buildUnrelatedTargetsOnError) {''', '''        m_allCommandsSuccessfullyExecuted = !m_pendingTargets.isEmpty();
        if (m_makefile->options()->buildUnrelatedTargetsOnError) {''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'aa :\n\ttool a\n\nbb :\n\ttool b\n'}, {'a': [['x', 3]], 'b': [['s', 100]]}, ['/NOLOGO', '/K', 'aa', 'bb'])
    if l.code != 1: return 'exit code %s' % l.code
