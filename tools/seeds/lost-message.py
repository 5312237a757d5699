PROPERTY = 'P07'
NEEDS = 'the failing command runs in a job slot whose output is buffered and nothing is shown of that slot afterwards'
BREAKS = 'the message that names the failed target is never printed'
EDITS = [('src/jomlib/jomprocess.cpp', '''        qWarning("Process: destroyed while process still running.");
    printBufferedOutput();
''', '''        qWarning("Process: destroyed while process still running.");
''')]
def check(sim):
    for seed in range(10):
        l = sim.run({'/w/p/Makefile': 'all: a b\n\na :\n\ttool a\n\nb :\n\ttool b\n'}, {'a': [['s', 50000]], 'b': [['s', 1000], ['x', 3]]}, ['/NOLOGO', '/J', '3'], seed=seed)
        if '[b] Error 3' not in l.out(2): return 'the failed target is not named on stderr'
