PROPERTY = 'P03'
NEEDS = 'three levels of joms, the middle one with a smaller /J than the inherited one'
BREAKS = 'no job server is created for the middle one, so the jom below it uses the large pool'
EDITS = [('src/app/main.cpp', '                && g_options.maxNumberOfJobs != inheritedMaxNumberOfJobs)', '                && g_options.maxNumberOfJobs > inheritedMaxNumberOfJobs)')]
def check(sim):
    for seed in range(20):
        l = sim.run({'/w/p/Makefile': 'all:\n\t$(MAKE) /NOLOGO /J 1 /F mid.mk TAG=j1\n', '/w/p/mid.mk': 'all:\n\t$(MAKE) /NOLOGO /F low.mk TAG=j2\n', '/w/p/low.mk': 'all: a b c\n\na :\n\ttool a\n\nb :\n\ttool b\n\nc :\n\ttool c\n'},
                    {'a': [['s', 50000]], 'b': [['s', 50000]], 'c': [['s', 50000]]}, ['/NOLOGO', '/J', '4'], seed=seed)
        c = sorted(l.find('tool '))
        if any(y[0] < x[1] for x, y in zip(c, c[1:])): return 'commands of a jom with /J 1 ran at the same time'
