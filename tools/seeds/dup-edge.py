PROPERTY = 'P02'
NEEDS = 'a target that lists one dependent twice, in different spellings'
BREAKS = 'the target is never built, and the build reports success'
EDITS = [('src/jomlib/dependencygraph.cpp', '''    if (!parent->children.contains(child))
        parent->children.append(child);
    if (!child->parents.contains(parent))
        child->parents.append(parent);''', '''    if (!child->parents.contains(parent))
        child->parents.append(parent);
    parent->children.append(child);''')]
def check(sim):
    l = sim.run({'/w/p/Makefile': 'all: aa.x AA.x\n\ttool all\n\naa.x:\n\ttool a\n'}, {'a': [['s', 100], ['w', 'aa.x']], 'all': [['s', 100]]}, ['/NOLOGO', '/J', '2'])
    if l.code or not l.find('tool all'): return 'exit code %s, %s' % (l.code, [c[2] for c in l.cmds])
