PROPERTY = 'P10'
NEEDS = 'a command whose output contains a zero byte, while its output is buffered'
BREAKS = 'the rest of the block after the zero byte is lost'
EDITS = [('src/jomlib/jomprocess.cpp', '''            QByteArray data(intermediateOutputBuffer.data(), numberOfBytes);
''', '''            QByteArray data(intermediateOutputBuffer.constData());
            data.truncate(numberOfBytes);
''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all: aa bb\n\naa:\n\t@tool a\n\nbb:\n\t@tool b\n'}, {'a': [['s', 30000], ['o', 1, 'first\r\n']], 'b': [['s', 100], ['o', 1, 'left\0right\r\n'], ['s', 50000]]}, ['/NOLOGO', '/J', '2'])
    if l.code or 'first' not in l.out(1) or 'left\0right\r\n' not in l.out(1): return 'exit code %s, %r' % (l.code, l.out(1))
