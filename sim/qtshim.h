// Force-included into jom's sources: QCoreApplication, QWinEventNotifier and QSystemSemaphore on the simulator.
#pragma once
#include <QtCore/QCoreApplication>
#include <QtCore/QEvent>
#include <QtCore/QObject>
#include <QtCore/QStringList>

class SimCoreApplication : public QObject
{
    Q_OBJECT
public:
    SimCoreApplication(int &argc, char **argv);
    ~SimCoreApplication();
    static SimCoreApplication *instance();
    static QStringList arguments();
    static qint64 applicationPid();
    static QString applicationFilePath();
    static QString applicationDirPath();
    static QString applicationName();
    static void setApplicationName(const QString &);
    static void setApplicationVersion(const QString &);
    static QString applicationVersion();
    static int exec();
    static void exit(int code = 0);
    static bool closingDown();
    static bool startingUp() { return false; }
    static void processEvents(QEventLoop::ProcessEventsFlags flags = QEventLoop::AllEvents) { QCoreApplication::processEvents(flags); }
    static void processEvents(QEventLoop::ProcessEventsFlags flags, int ms) { QCoreApplication::processEvents(flags, ms); }
    static bool sendEvent(QObject *o, QEvent *e) { return QCoreApplication::sendEvent(o, e); }
    static void postEvent(QObject *o, QEvent *e, int prio = Qt::NormalEventPriority) { QCoreApplication::postEvent(o, e, prio); }
    static void sendPostedEvents(QObject *o = nullptr, int t = 0) { QCoreApplication::sendPostedEvents(o, t); }
    static void removePostedEvents(QObject *o, int t = 0) { QCoreApplication::removePostedEvents(o, t); }
    static void setAttribute(Qt::ApplicationAttribute, bool = true) {}
    static QString translate(const char *, const char *s, const char * = nullptr, int = -1) { return QString::fromUtf8(s); }
public slots:
    static void quit();
signals:
    void aboutToQuit();
};
#define QCoreApplication SimCoreApplication
#define QSystemSemaphore SimSystemSemaphore
#define QWinEventNotifier SimWinEventNotifier
