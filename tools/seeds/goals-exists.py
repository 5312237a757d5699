PROPERTY = 'P02'
NEEDS = 'three goals; a target without dependents that exists during the first goal, is deleted by a command of the second one and needed by the third one'
BREAKS = 'the target counts as existing for the third goal and is not built again'
EDITS = [('src/jomlib/makefile.cpp', '        target->m_timeStamp = FileTime();\n        target->m_bFileExists = false;\n', '        target->m_timeStamp = FileTime();\n')]
def check(sim):
    l = sim.run({'/w/p/lib.out': 'old', '/w/p/Makefile': 'lib.out:\n\ttool lib\n\nclean:\n\ttool clean\n\napp.out: lib.out\n\ttool app\n'},
                {'lib': [['w', 'lib.out']], 'clean': [['d', 'lib.out']], 'app': [['s', 100], ['w', 'app.out']]}, ['/NOLOGO', '/J', '2', 'lib.out', 'clean', 'app.out'])
    if l.code == 0 and l.file('/w/p/lib.out') is None: return 'lib.out does not exist after the build'
