PROPERTY = 'P10'
NEEDS = 'a console that refuses big writes (ENOMEM), and a big piece of output whose size is not a multiple of 4096'
BREAKS = 'the end of the output is lost'
EDITS = [('src/jomlib/jomprocess.cpp', '''            size_t k = qMin(chunkSize, count);
            fwrite(str, sizeof(char), k, stream);
            fflush(stream);
            if (k >= count)
                break;
''', '''            if (count < chunkSize)
                break;
            const size_t k = chunkSize;
            fwrite(str, sizeof(char), k, stream);
            fflush(stream);
''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all:\n\ttool a\n'}, {'a': [['s', 100], ['o', 1, 'x' * 30000 + 'END\n'], ['s', 100]]}, ['/NOLOGO', '/J', '2'], cfg={'console_max': 20000})
    l2 = sim.run({'/w/p/Makefile': 'all: aa bb\n\naa:\n\ttool a\n\nbb:\n\ttool a\n'}, {'a': [['s', 100], ['o', 1, ('x' * 99 + '\n') * 300 + 'END\n'], ['s', 100]]}, ['/NOLOGO', '/J', '2'], cfg={'console_max': 3000})
    for k in (l, l2):
        if k.code or 'END' not in k.out(): return 'output is missing: %d bytes, exit code %s' % (len(k.out()), k.code)
