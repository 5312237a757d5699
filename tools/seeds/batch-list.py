PROPERTY = 'P12'
NEEDS = 'a batch rule whose inline file lists the sources, with a batch of more than a few files'
BREAKS = 'the inline file lists only the first sources of the batch'
EDITS = [('src/jomlib/makefile.cpp', '''            inlineFile->m_content.replace(fileNameMacroString, inferredDependents);''', '''            inlineFile->m_content.replace(fileNameMacroString, inferredDependents.left(64));''')]
def check(sim):
    n = 20
    names = ['src%02d' % i for i in range(n)]
    mk = '.SUFFIXES: .qx .rx\n\n.qx.rx::\n\ttool b <<\n$<\n<<\n\nall: %s\n' % ' '.join(x + '.rx' for x in names)
    f = {'/w/p/Makefile': mk}
    for x in names: f['/w/p/%s.qx' % x] = x
    l = sim.run(f, {'b': [['ia', 0], ['wa', '.rx'], ['s', 100]]}, ['/NOLOGO', '/J', '2'])
    got = set()
    for e in l.all('iargs'): got |= set(e['args'].split())
    if l.code or got != {x + '.qx' for x in names}: return 'exit code %s, the inline files list %s' % (l.code, sorted(got))
