#pragma once
#include <QtCore/QObject>
#include <QtCore/QEvent>
#include <qt_windows.h>
class SimWinEventNotifier : public QObject
{
    Q_OBJECT
public:
    explicit SimWinEventNotifier(QObject *parent = nullptr);
    explicit SimWinEventNotifier(HANDLE h, QObject *parent = nullptr);
    ~SimWinEventNotifier();
    void setHandle(HANDLE h);
    HANDLE handle() const { return m_handle; }
    bool isEnabled() const { return m_enabled; }
public slots:
    void setEnabled(bool enable);
signals:
    void activated(HANDLE hEvent);
protected:
    bool event(QEvent *e) override;
private:
    void arm();
    HANDLE m_handle;
    bool m_enabled;
    quint64 m_gen;
    static void signaled(void *);
};

