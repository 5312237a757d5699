PROPERTY = 'P04'
NEEDS = 'a target that ends while jom still waits for a token for the next one: contention between recursive joms'
BREAKS = 'the token acquired later is never returned to the pool'
EDITS = [('src/jomlib/targetexecutor.cpp', '    m_depgraph->removeLeaf(executor->target());\n    if (m_jobAcquisitionCount > 0) {', '    m_depgraph->removeLeaf(executor->target());\n    // The last running target uses the internal job token.\n    if (m_jobAcquisitionCount > 0 && numberOfRunningProcesses() > 1) {')]
def check(sim):
    sub = 'all: a%d b%d\n\na%d:\n\ttool a%d\n\nb%d:\n\ttool b%d\n'
    for seed in range(40):
        l = sim.run({'/w/p/Makefile': 'all: x y\n\nx :\n\t$(MAKE) /NOLOGO /F s1.mk TAG=j1\n\ny :\n\t$(MAKE) /NOLOGO /F s2.mk TAG=j2\n', '/w/p/s1.mk': sub % ((1,) * 6), '/w/p/s2.mk': sub % ((2,) * 6)},
                    {'a1': [['s', 2000]], 'b1': [['s', 3000]], 'a2': [['s', 2500]], 'b2': [['s', 2000]]}, ['/NOLOGO', '/J', '2'], seed=seed)
        s = [e for e in l.all('sem')]
        if l.status != 'done': return 'the build did not end: ' + l.status
        if s and s[-1]['v'] != 1: return 'pool holds %d tokens at the end instead of 1' % s[-1]['v']
