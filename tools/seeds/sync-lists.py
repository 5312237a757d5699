PROPERTY = 'P01'
NEEDS = 'a target listed behind .SYNC in one description block and, without .SYNC, in a later block too'
BREAKS = 'the second list overwrites the sync point, so the target starts before the targets listed in front of .SYNC are done'
EDITS = [('src/jomlib/parser.cpp', '                m_syncPoints[dependents.at(i)] += syncDeps;', '                m_syncPoints[dependents.at(i)] = syncDeps;')]
def check(sim):
    for seed in range(20):
        l = sim.run({'/w/p/Makefile': 'all: first second\n\nfirst: prep .SYNC work\n\nsecond: work other\n\nprep:\n\ttool prep\n\nwork:\n\ttool work\n\nother:\n\ttool other\n'},
                    {'prep': [['s', 50000]], 'work': [['s', 1000]], 'other': [['s', 1000]]}, ['/NOLOGO', '/J', '4'], seed=seed)
        p, w = l.find('tool prep')[0], l.find('tool work')[0]
        if w[0] < p[1]: return 'work was started before prep was done'
