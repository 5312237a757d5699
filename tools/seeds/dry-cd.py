PROPERTY = 'P19'
NEEDS = '/N and a command block that changes to a directory an earlier command would create'
BREAKS = 'the dry run executes cd and fails'
EDITS = [('src/jomlib/commandexecutor.cpp', '''    if (m_pTarget->makefile()->options()->dryRun || (rexShellComment.indexIn(commandLine) >= 0))
    {
        onProcessFinished(0, Process::NormalExit);
        return;
    }
''', '''    if (rexShellComment.indexIn(commandLine) >= 0) {
        onProcessFinished(0, Process::NormalExit);
        return;
    }
'''), ('src/jomlib/commandexecutor.cpp', '''            onProcessFinished(success ? 0 : 1, Process::NormalExit);
            return;
        }
    }
''', '''            onProcessFinished(success ? 0 : 1, Process::NormalExit);
            return;
        }
    }

    if (m_pTarget->makefile()->options()->dryRun) {
        onProcessFinished(0, Process::NormalExit);
        return;
    }
''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all:\n\ttool mkdir\n\tcd new\n\ttool a\n'}, {'mkdir': [], 'a': []}, ['/NOLOGO', '/N', '/J', '1'])
    if l.code != 0 or 'tool a' not in l.out(1): return 'dry run ended with %s' % l.code
