PROPERTY = 'P10'
NEEDS = 'output that arrives in the I/O thread exactly while the command becomes the one that is shown live'
BREAKS = 'that output stays in the buffer and is shown after output written later'
EDITS = [('src/jomlib/jomprocess.cpp', '''    d->bufferedOutputModeSwitchMutex.lock();

    m_bufferedOutput = b;
    if (!m_bufferedOutput)
        printBufferedOutput();

    d->bufferedOutputModeSwitchMutex.unlock();
''', '''    if (!b)
        printBufferedOutput();

    d->bufferedOutputModeSwitchMutex.lock();
    m_bufferedOutput = b;
    d->bufferedOutputModeSwitchMutex.unlock();
''')]
def check(sim):
    steps = []
    for i in range(40): steps += [['o', 1, 'line%03d\n' % i], ['s', 40]]
    for seed in range(250):
        l = sim.run({'/w/p/Makefile': 'all: a b\n\na :\n\t@tool a\n\nb :\n\t@tool b\n'}, {'a': [['s', 700]], 'b': steps}, ['/NOLOGO', '/J', '2'], seed=seed, sched={'mode': 'rand', 'gap': 0, 'psync': 1, 'wevent': 1, 'wtime': 0.05})
        o = [x for x in l.out(1).split('\n') if x.startswith('line')]
        if o != ['line%03d' % i for i in range(40)]: return 'seed %d: output out of order' % seed
