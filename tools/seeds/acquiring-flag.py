PROPERTY = 'P05'
NEEDS = 'a target whose first command is a failing builtin (cd into a directory that does not exist), started on a token acquired from the job server'
BREAKS = 'the abort happens while the job client still claims to be acquiring; jom waits for ever for a token that was delivered already'
EDITS = [('src/jomlib/jobclient.cpp', 'void JobClient::onHelperAcquired()\n{\n    m_isAcquiring = false;\n    emit acquired();\n', 'void JobClient::onHelperAcquired()\n{\n    emit acquired();\n    m_isAcquiring = false;\n')]
def check(sim):
    for seed in range(5):
        l = sim.run({'/w/p/Makefile': 'all: a b\n\na :\n\ttool a\n\nb :\n\tcd nowhere\n\ttool b\n'}, {'a': [['s', 30000]], 'b': [['s', 100]]}, ['/NOLOGO', '/J', '2'], seed=seed)
        if l.status != 'done': return 'jom does not end: ' + l.status
