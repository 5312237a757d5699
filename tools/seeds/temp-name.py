PROPERTY = 'P12'
NEEDS = 'two joms of one tree that build targets of the same name with inline files at the same time'
BREAKS = 'both choose the same file name'
EDITS = [('src/jomlib/commandexecutor.cpp', '''                               + QString::number(GetCurrentProcessId()) + QLatin1Char('.')
''', '')]
def check(sim):
    mk = 'link:\n\ttool l%d <<\ncontent %d\n<<\n'
    for seed in range(300):
        l = sim.run({'/w/p/Makefile': 'all: x y\n\nx :\n\t$(MAKE) /NOLOGO /F s1.mk TAG=j1\n\ny :\n\t$(MAKE) /NOLOGO /F s2.mk TAG=j2\n', '/w/p/s1.mk': mk % (1, 1), '/w/p/s2.mk': mk % (2, 2)},
                    {'l1': [['s', 500], ['i', 0]], 'l2': [['s', 500], ['i', 0]]}, ['/NOLOGO', '/J', '2'], seed=seed, sched={'mode': 'rand', 'gap': 0, 'psync': 1, 'wevent': 1, 'wtime': 0.05}, cfg={'gettick_gran_ms': 64})
        f = [c[2].split()[-1] for c in l.find('tool l')]
        if len(set(f)) != len(f): return 'seed %d: %s used twice' % (seed, f[0])
