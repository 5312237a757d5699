PROPERTY = 'P17'
NEEDS = 'a read error in the middle of a makefile or include file'
BREAKS = 'the file is read as a whole and closed when it is opened, which resets the error: the readable part is taken for the whole makefile and built'
EDITS = [('src/jomlib/makefilelinereader.cpp', '''bool MakefileLineReader::open()
{
    if (!m_file.open(QIODevice::ReadOnly | QIODevice::Text))
        return false;
''', '''bool MakefileLineReader::open()
{
    if (!m_diskFile.open(QIODevice::ReadOnly | QIODevice::Text))
        return false;

    // Read everything at once. The file must not stay open while commands are executed.
    m_file.setData(m_diskFile.readAll());
    m_diskFile.close();
    m_file.open(QIODevice::ReadOnly);
'''), ('src/jomlib/makefilelinereader.cpp', '''    if (m_file.error() != QFile::NoError)
''', '''    if (hasError())
'''), ('src/jomlib/makefilelinereader.cpp', ''':   m_file(filename),
''', ''':   m_diskFile(filename),
'''), ('src/jomlib/makefilelinereader.h', '''    QFile m_file;
''', '''    QFile m_diskFile;
    QBuffer m_file;
'''), ('src/jomlib/makefilelinereader.h', '''m_file.error() != QFile::NoError;''', '''m_diskFile.error() != QFile::NoError;'''),
 ('src/jomlib/makefilelinereader.h', '''return m_file.fileName();''', '''return m_diskFile.fileName();'''),
 ('src/jomlib/makefilelinereader.h', '''#include <QtCore/QTextStream>
''', '''#include <QtCore/QBuffer>
#include <QtCore/QTextStream>
''')]
def check(sim):
    mk = 'all: a b\n\na :\n\ttool a\n\n' + '# a comment\n' * 3000 + 'b :\n\ttool b\n\ttool c\n'
    t = {'a': [['s', 10]], 'b': [['s', 10]], 'c': [['s', 10]]}
    for off in (len(mk) - 8, len(mk) // 2, 30000):
        l = sim.run({'/w/p/Makefile': mk}, t, ['/NOLOGO'], faults=[{'site': 'read', 'path': '/w/p/Makefile', 'off': off, 'nth': 0, 'count': 99}])
        if l.code == 0 or l.cmds: return 'a makefile that could be read up to byte %d only: exit code %r, %d commands' % (off, l.code, len(l.cmds))
    l = sim.run({'/w/p/Makefile': mk}, t, ['/NOLOGO'])
    if l.code != 0 or len(l.cmds) != 3: return 'a readable makefile is not built'
