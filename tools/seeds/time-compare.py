PROPERTY = 'P15'
NEEDS = 'time stamps on both sides of a multiple of 2^32 * 100 ns (about every seven minutes)'
BREAKS = 'a newer source file counts as older than the target and the target is not rebuilt after an edit'
EDITS = [('src/jomlib/filetime.cpp', '    return CompareFileTime(t1, t2) < 0;\n', '    return t1->dwHighDateTime < t2->dwHighDateTime\n        || (t1->dwLowDateTime < t2->dwLowDateTime && t1->dwHighDateTime <= t2->dwHighDateTime + 1);\n')]
def check(sim):
    for k in range(40):
        a = -2000000000 + k * 100000000
        l = sim.run({'/w/p/Makefile': 'a.out: a.src\n\ttool a\n', '/w/p/a.src': {'d': 'x', 'mt': a}, '/w/p/a.out': {'d': 'y', 'mt': a + 90000000}}, {'a': [['w', 'a.out']]}, ['/NOLOGO', '/J', '1'])
        if l.find('tool a'): return 'a target was rebuilt that is newer than its source (%d)' % k
        l = sim.run({'/w/p/Makefile': 'a.out: a.src\n\ttool a\n', '/w/p/a.src': {'d': 'x', 'mt': a + 90000000}, '/w/p/a.out': {'d': 'y', 'mt': a}}, {'a': [['w', 'a.out']]}, ['/NOLOGO', '/J', '1'])
        if not l.find('tool a'): return 'a target was not rebuilt although its source is newer (%d)' % k
