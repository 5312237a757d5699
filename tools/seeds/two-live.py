PROPERTY = 'P11'
NEEDS = 'the command that is shown live ends while nothing else runs, and several targets become ready then'
BREAKS = 'two slots show their output live, the output of two commands is mixed'
EDITS = [('src/jomlib/targetexecutor.cpp', '''        executor->setBufferedOutput(true);
        bool found = false;
''', '''        bool found = false;
'''), ('src/jomlib/targetexecutor.cpp', '''                cmdex->setBufferedOutput(false);
                found = true;
''', '''                executor->setBufferedOutput(true);
                cmdex->setBufferedOutput(false);
                found = true;
''')]
def check(sim):
    st = lambda c: [x for i in range(6) for x in (['o', 1, c * 3 + '\n'], ['s', 5000])]
    for seed in range(20):
        l = sim.run({'/w/p/Makefile': 'all: a b\n\na : first\n\t@tool a\n\nb : first\n\t@tool b\n\nfirst:\n\t@tool first\n'}, {'first': [['s', 1000]], 'a': st('a'), 'b': st('b')}, ['/NOLOGO', '/J', '2'], seed=seed)
        o = ''.join(x[0] for x in l.out(1).split('\n') if x)
        if 'ab' in o and 'ba' in o: return 'mixed output: ' + o
