PROPERTY = 'P06'
NEEDS = '.NOTPARALLEL in a makefile that runs recursive joms'
BREAKS = 'the pool of the whole tree has one job only, so the recursive joms do not use the jobs they were promised'
EDITS = [('src/app/main.cpp', '''        JobServer *jobServer = 0;
''', '''        if (mkfile->isParallelExecutionDisabled()) {
            printf("jom: parallel job execution disabled for %s\\n", qPrintable(mkfile->fileName()));
            g_options.maxNumberOfJobs = 1;
        }

        JobServer *jobServer = 0;
'''), ('src/app/main.cpp', '''            fflush(stdout);
        }

        if (mkfile->isParallelExecutionDisabled()) {
            printf("jom: parallel job execution disabled for %s\\n", qPrintable(mkfile->fileName()));
            g_options.maxNumberOfJobs = 1;
        }

        TargetExecutor executor''', '''            fflush(stdout);
        }

        TargetExecutor executor''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': '.NOTPARALLEL:\nall:\n\t$(MAKE) /NOLOGO /F s.mk TAG=j1\n', '/w/p/s.mk': 'all: a b c\n\na :\n\ttool a\n\nb :\n\ttool b\n\nc :\n\ttool c\n'},
                {'a': [['s', 5000000]], 'b': [['s', 5000000]], 'c': [['s', 5000000]]}, ['/NOLOGO', '/J', '3'])
    c = sorted(l.find('tool '))
    if len(c) != 3 or any(y[0] > x[1] for x in c for y in c): return 'three independent commands did not run at the same time'
