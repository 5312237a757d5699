PROPERTY = 'P13'
NEEDS = 'a failing command while another one goes on for more than fifteen seconds'
BREAKS = 'jom gives the running commands only fifteen seconds to end and exits while they still write files'
EDITS = [('src/jomlib/targetexecutor.cpp', '''    foreach (CommandExecutor* process, m_processes)
        process->waitForFinished();
''', '''    // Don't wait forever for a command that hangs.
    QTimer timer;
    timer.setSingleShot(true);
    timer.start(15000);
    foreach (CommandExecutor* process, m_processes)
        while (process->isRunning() && timer.isActive())
            QCoreApplication::processEvents(QEventLoop::WaitForMoreEvents);
'''), ('src/jomlib/targetexecutor.cpp', '''#include <QCoreApplication>
''', '''#include <QCoreApplication>
#include <QTimer>
'''), ('src/jomlib/commandexecutor.h', '''    bool isActive() const { return m_active; }
''', '''    bool isActive() const { return m_active; }
    bool isRunning() const { return m_process.isRunning(); }
''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all: a b\n\na :\n\ttool a\n\nb :\n\ttool b\n'}, {'a': [['s', 40000000], ['w', 'a.out', 'x']], 'b': [['s', 1000000], ['x', 1]]}, ['/NOLOGO', '/J', '2'])
    e = {x['p']: x['t'] for x in l.all('exit')}
    if l.code != 2: return 'exit code %r' % l.code
    for c in l.cmds:
        if e.get(c[3], 1 << 60) > e[0]: return 'jom exits while %r is running' % c[2]
