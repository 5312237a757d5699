PROPERTY = 'P18'
NEEDS = 'Ctrl-C while a command is running that ignores it and goes on for a long time'
BREAKS = 'the console control handler waits for the running commands before it removes the inline files, so jom does not exit promptly'
EDITS = [('src/jomlib/targetexecutor.cpp', '''void TargetExecutor::removeTempFiles()
{
''', '''void TargetExecutor::removeTempFiles()
{
    // Files that are still in use cannot be removed.
    foreach (CommandExecutor *process, m_processes)
        while (process->isActive())
            Sleep(50);

'''), ('src/jomlib/targetexecutor.cpp', '''#include <QCoreApplication>
''', '''#include <QCoreApplication>
#include <windows.h>
''')]
def check(sim):
    t = {'a': [['ic'], ['s', 60000000]], 'b': [['s', 60000000]]}
    for who in 'ba':
        l = sim.run({'/w/p/Makefile': 'all:\n\ttool %s\n' % who}, t, ['/NOLOGO'], triggers=[{'on': 'spawn', 'n': 1, 'delay': 500000, 'do': 'ctrlc'}])
        e = [x for x in l.all('exit') if x['p'] == 0]
        if not e or e[0]['code'] != 2: return 'jom does not exit with 2'
        if e[0]['t'] > 5500000: return 'jom exits %d ms after Ctrl-C' % ((e[0]['t'] - 500000) // 1000)
