#include "qtshim.h"
#undef QCoreApplication
#include <QtCore/QEventLoop>
#include <QtCore/QThread>
#include <QtCore/QFileInfo>
#include "shim/qwineventnotifier.h"
#include "shim/qsystemsemaphore.h"

extern "C" {
int sim_sem_open(const char *key, int initial, unsigned long *h);
int sim_sem_acquire(unsigned long h);
int sim_sem_release(unsigned long h, int n);
void sim_close(unsigned long h);
void sim_notifier_add(void *cookie, unsigned long h, void (*cb)(void *));
void sim_notifier_remove(void *cookie);
int getpid();
}
static SimCoreApplication *s_app = nullptr;
static QStringList s_args;
static bool s_inExec = false;
static QString s_name = QStringLiteral("jom"), s_version;

SimCoreApplication::SimCoreApplication(int &argc, char **argv)
{
    s_app = this;
    s_args.clear();
    for (int i = 0; i < argc; ++i) s_args.append(QString::fromLatin1(argv[i]));
}
SimCoreApplication::~SimCoreApplication() { s_app = nullptr; }
SimCoreApplication *SimCoreApplication::instance() { return s_app; }
QStringList SimCoreApplication::arguments() { return s_args; }
qint64 SimCoreApplication::applicationPid() { return getpid(); }
QString SimCoreApplication::applicationFilePath() { return QStringLiteral("/w/bin/jom.exe"); }
QString SimCoreApplication::applicationDirPath() { return QStringLiteral("/w/bin"); }
QString SimCoreApplication::applicationName() { return s_name; }
void SimCoreApplication::setApplicationName(const QString &n) { s_name = n; }
void SimCoreApplication::setApplicationVersion(const QString &n) { s_version = n; }
QString SimCoreApplication::applicationVersion() { return s_version; }
bool SimCoreApplication::closingDown() { return !s_app; }
int SimCoreApplication::exec()
{
    QEventLoop loop;
    s_inExec = true;
    int r = loop.exec();
    s_inExec = false;
    if (s_app) emit s_app->aboutToQuit();
    QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
    return r;
}
void SimCoreApplication::exit(int code)
{
    if (!s_inExec || !s_app) return;         // like QCoreApplication: no effect before exec()
    s_app->thread()->exit(code);
}
void SimCoreApplication::quit() { exit(0); }

// ---- QWinEventNotifier
static int eventType() { static int t = QEvent::registerEventType(); return t; }
struct SimNotifyEvent : QEvent { quint64 gen; explicit SimNotifyEvent(quint64 g) : QEvent(QEvent::Type(eventType())), gen(g) {} };
SimWinEventNotifier::SimWinEventNotifier(QObject *parent) : QObject(parent), m_handle(nullptr), m_enabled(false), m_gen(0) { eventType(); }
SimWinEventNotifier::SimWinEventNotifier(HANDLE h, QObject *parent) : QObject(parent), m_handle(h), m_enabled(false), m_gen(0) { eventType(); setEnabled(true); }
SimWinEventNotifier::~SimWinEventNotifier() { setEnabled(false); }
void SimWinEventNotifier::setHandle(HANDLE h) { setEnabled(false); m_handle = h; }
void SimWinEventNotifier::arm() { sim_notifier_add(this, (unsigned long)m_handle, &SimWinEventNotifier::signaled); }
void SimWinEventNotifier::setEnabled(bool enable)
{
    if (m_enabled == enable) return;
    m_enabled = enable;
    if (enable) { ++m_gen; arm(); } else sim_notifier_remove(this);
}
void SimWinEventNotifier::signaled(void *c) { SimWinEventNotifier *n = static_cast<SimWinEventNotifier *>(c); QCoreApplication::postEvent(n, new SimNotifyEvent(n->m_gen)); }
bool SimWinEventNotifier::event(QEvent *e)
{
    if (e->type() == eventType()) {
        if (m_enabled && static_cast<SimNotifyEvent *>(e)->gen == m_gen) {
            quint64 g = m_gen;
            emit activated(m_handle);
            if (m_enabled && g == m_gen) arm();
        }
        return true;
    }
    return QObject::event(e);
}
// ---- QSystemSemaphore (Windows: a named semaphore, gone with its last handle)
SimSystemSemaphore::SimSystemSemaphore(const QString &key, int initialValue, AccessMode mode) : m_error(NoError), m_h(0) { setKey(key, initialValue, mode); }
SimSystemSemaphore::~SimSystemSemaphore() { if (m_h) sim_close(m_h); }
void SimSystemSemaphore::fail(int e) { m_error = UnknownError; m_errorString = QStringLiteral("QSystemSemaphore: unknown error %1").arg(e); }
void SimSystemSemaphore::setKey(const QString &key, int initialValue, AccessMode)
{
    if (m_h) { sim_close(m_h); m_h = 0; }
    m_key = key; m_error = NoError; m_errorString.clear();
    if (initialValue < 0) { m_error = UnknownError; return; }
    unsigned long h = 0;
    if (int e = sim_sem_open(key.toLatin1().constData(), initialValue, &h)) { fail(e); return; }
    m_h = h;
}
bool SimSystemSemaphore::acquire() { int e = m_h ? sim_sem_acquire(m_h) : 6; if (e) { fail(e); return false; } return true; }
bool SimSystemSemaphore::release(int n) { if (n == 0) return true; int e = m_h ? sim_sem_release(m_h, n) : 6; if (e) { fail(e); return false; } return true; }
