PROPERTY = 'P08'
NEEDS = '/K and a target without commands between the failed target and one that depends on it'
BREAKS = 'a target that depends on the failed one through a target without commands is built'
EDITS = [('src/jomlib/dependencygraph.cpp', '''        parent->state = Node::Unbuildable;
        markParentsRecursivlyUnbuildable(parent);
''', '''        parent->state = Node::Unbuildable;
'''), ('src/jomlib/targetexecutor.cpp', '''                        qPrintable(m_nextTarget->targetName()));
                m_depgraph->removeLeaf(m_nextTarget);
''', '''                        qPrintable(m_nextTarget->targetName()));
                m_depgraph->markParentsRecursivlyUnbuildable(m_nextTarget);
                m_depgraph->removeLeaf(m_nextTarget);
''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all: group x\n\ttool all\n\ngroup: a\n\na :\n\ttool a\n\nx :\n\ttool x\n'}, {'a': [['x', 1]], 'x': [['s', 100]], 'all': [['s', 100]]}, ['/NOLOGO', '/J', '2', '/K'])
    if l.find('tool all'): return 'a command that depends on the failed target was run'
