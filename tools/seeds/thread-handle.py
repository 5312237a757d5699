PROPERTY = 'P16'
NEEDS = 'a long build; nothing is visible from outside before the handles run out'
BREAKS = 'one handle (the main thread of the command) stays open for every command executed'
EDITS = [('src/jomlib/jomprocess.cpp', '    safelyCloseHandle(d->hProcess);\n    safelyCloseHandle(d->hProcessThread);\n', '    safelyCloseHandle(d->hProcess);\n')]
def check(sim):
    n = 40
    l = sim.run({'/w/p/Makefile': 'all:\n' + ''.join('\ttool t%d\n' % i for i in range(n))}, {'t%d' % i: [['s', 10]] for i in range(n)}, ['/NOLOGO', '/J', '1'])
    e = [x for x in l.all('exit') if x['p'] == 0][0]
    if e['maxh'] > 25: return 'jom held %d handles' % e['maxh']
