PROPERTY = 'P14'
NEEDS = 'several job slots, and a variable set in a slot with a higher number than the one a later command runs in'
BREAKS = 'the command does not see the variable'
EDITS = [('src/jomlib/targetexecutor.cpp', '''            connect(executor, SIGNAL(environmentChanged(const ProcessEnvironment &)),
                    other, SLOT(setEnvironment(const ProcessEnvironment &)));
            connect(other,''', '''            connect(other,''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all: aa bb cc\n\naa :\n\ttool a\n\nbb : aa\n\tset ABC=1\n\ttool b\n\ncc : bb\n\ttool c\n'}, {'a': [['s', 100]], 'b': [['s', 100]], 'c': [['e', 'ABC'], ['s', 100]]}, ['/NOLOGO', '/J', '2'])
    e = l.all('env')
    if e[0].get('v') != '1': return 'the variable is not set: ' + str(e[0])
