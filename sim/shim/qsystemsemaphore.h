#pragma once
#include <QtCore/QString>
class SimSystemSemaphore
{
public:
    enum AccessMode { Open, Create };
    enum SystemSemaphoreError { NoError, PermissionDenied, KeyError, AlreadyExists, NotFound, OutOfResources, UnknownError };
    explicit SimSystemSemaphore(const QString &key, int initialValue = 0, AccessMode mode = Open);
    ~SimSystemSemaphore();
    void setKey(const QString &key, int initialValue = 0, AccessMode mode = Open);
    QString key() const { return m_key; }
    bool acquire();
    bool release(int n = 1);
    SystemSemaphoreError error() const { return m_error; }
    QString errorString() const { return m_errorString; }
private:
    SimSystemSemaphore(const SimSystemSemaphore &);
    void fail(int e);
    QString m_key, m_errorString;
    SystemSemaphoreError m_error;
    quint64 m_h;
};

