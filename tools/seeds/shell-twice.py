PROPERTY = 'P20'
NEEDS = 'a command that needs the command interpreter, which cannot be started at the first attempt'
BREAKS = 'it is tried a second time'
EDITS = [('src/jomlib/commandexecutor.cpp', '''        m_process.start(commandLine);
        executionSucceeded = m_process.isRunning();
    }

    m_ignoreProcessErrors = false;''', '''        for (int attempt = 0; attempt < 2 && !m_process.isRunning(); ++attempt)
            m_process.start(commandLine);
        executionSucceeded = m_process.isRunning();
    }

    m_ignoreProcessErrors = false;''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all:\n\ttool a > x.txt\n'}, {'a': [['s', 10]]}, ['/NOLOGO', '/J', '1'], faults=[{'site': 'CreateProcess', 'path': '^cmd.exe', 'nth': 0, 'count': 1}])
    if l.code != 2: return 'exit code %s' % l.code
