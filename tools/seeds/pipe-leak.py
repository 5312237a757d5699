PROPERTY = 'P16'
NEEDS = '/K or tolerated commands, and a system that refuses to open the write end of a pipe'
BREAKS = 'the read end of the pipe stays open'
EDITS = [('src/jomlib/jomprocess.cpp', '''        qErrnoWarning("Process: CreateFile failed.");
        CloseHandle(hRead);
''', '''        qErrnoWarning("Process: CreateFile failed.");
''')]
def check(sim):
    n = 40
    l = sim.run({'/w/p/Makefile': 'all:\n' + ''.join('\t-tool t%d\n' % i for i in range(n))}, {'t%d' % i: [['s', 10]] for i in range(n)}, ['/NOLOGO', '/J', '1'], faults=[{'site': 'CreateFile', 'nth': 0, 'count': 70}])
    e = [x for x in l.all('exit') if x['p'] == 0][0]
    if e['maxh'] > 25: return 'jom held %d handles' % e['maxh']
