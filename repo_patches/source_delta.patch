From b477e13a3ebc40d718016f79754db2e06d82def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:51 +0000
Subject: [PATCH 01/47] fix: don't drop .SYNC dependents after an undescribed
 one

Sync points were translated into dependents in hash order, and the first
one that names a plain file or an inferred target ended the translation,
silently dropping the order that was requested for all the others.
---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 8862405..f126a3e 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -132,7 +132,7 @@ void Parser::apply(Preprocessor* pp,
     {
         DescriptionBlock *target = m_makefile->target(it.key());
         if (!target)
-            break;
+            continue;
         target->m_dependents += it.value();
         target->m_dependents.removeDuplicates();
     }
-- 
2.43.0


From a379bd24990ec7df5d76d7494d264628ff0238dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:51 +0000
Subject: [PATCH 02/47] fix: show the output of only one target live

When the target whose output is not buffered ended, every other running
target was switched to unbuffered output, so that their output was mixed.
---
 src/jomlib/targetexecutor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index a6eb9d9..2ca88cd 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -247,6 +247,7 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
             if (cmdex->isActive()) {
                 cmdex->setBufferedOutput(false);
                 found = true;
+                break;
             }
         }
         if (!found)
-- 
2.43.0


From 690b7d367158cf8756aaab3b2a237ef6878cf2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:19 +0000
Subject: [PATCH 03/47] fix: wait for all command lines of a target when a
 build is aborted

Process::waitForFinished() returned after one command line, declared the
process to be not running although the next command line of the same
target was already started, and jom ended while it was running.
---
 src/jomlib/commandexecutor.cpp | 4 +++-
 src/jomlib/jomprocess.cpp      | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index bd10324..4c09811 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -132,7 +132,9 @@ void CommandExecutor::finishExecution(bool commandFailed)
 
 void CommandExecutor::waitForFinished()
 {
-    m_process.waitForFinished();
+    // The end of one command may be followed by the start of the target's next command.
+    while (m_process.isRunning())
+        m_process.waitForFinished();
 }
 
 inline bool commandLineStartsWithCommand(const QString &str, const QString &searchString)
diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 1e3335d..eba65c2 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -453,8 +453,6 @@ bool Process::waitForFinished()
     QEventLoop eventLoop;
     connect(this, SIGNAL(finished(int, Process::ExitStatus)), &eventLoop, SLOT(quit()));
     eventLoop.exec();
-
-    m_state = NotRunning;
     return true;
 }
 
-- 
2.43.0


From f5983c32989638e510df90ef37ef4d42aaa6e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:19 +0000
Subject: [PATCH 04/47] fix: abort builds in one way that waits for commands
 and returns tokens

An error while preparing a target ended jom without waiting for the
running commands and without returning the acquired job tokens. After a
failing command with a pending acquisition one job token too many was
returned. A second failure while waiting ended jom early.
---
 src/jomlib/dependencygraph.cpp |  3 ++-
 src/jomlib/targetexecutor.cpp  | 32 +++++++++++++++++++-------------
 src/jomlib/targetexecutor.h    |  1 +
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index bf8cfbc..67b9581 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -84,7 +84,8 @@ void DependencyGraph::build(DescriptionBlock* target)
 
 void DependencyGraph::markParentsRecursivlyUnbuildable(DescriptionBlock *target)
 {
-    markParentsRecursivlyUnbuildable(m_nodeContainer.value(target));
+    if (Node *node = m_nodeContainer.value(target))
+        markParentsRecursivlyUnbuildable(node);
 }
 
 bool DependencyGraph::isUnbuildable(DescriptionBlock *target) const
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 2ca88cd..5433917 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -147,9 +147,8 @@ void TargetExecutor::startProcesses()
             }
         }
     } catch (Exception &e) {
-        m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        abortBuild(1);
     }
 }
 
@@ -166,9 +165,8 @@ void TargetExecutor::buildNextTarget()
         m_nextTarget = 0;
         QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
     } catch (const Exception &e) {
-        m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        abortBuild(1);
     }
 }
 
@@ -185,7 +183,21 @@ void TargetExecutor::waitForJobClient()
     QEventLoop loop;
     connect(m_jobClient, &JobClient::acquired, &loop, &QEventLoop::quit);
     loop.exec();
-    m_jobClient->release();
+}
+
+/**
+ * Stops the build. Waits for everything that is still running and returns all job tokens.
+ */
+void TargetExecutor::abortBuild(int exitCode)
+{
+    m_bAborted = true;
+    m_depgraph->clear();
+    m_pendingTargets.clear();
+    waitForProcesses();
+    waitForJobClient();
+    for (; m_jobAcquisitionCount > 0; m_jobAcquisitionCount--)
+        m_jobClient->release();
+    finishBuild(exitCode);
 }
 
 void TargetExecutor::finishBuild(int exitCode)
@@ -255,14 +267,8 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
     }
 
     bool abortMakeProcess = commandFailed && !m_makefile->options()->buildUnrelatedTargetsOnError;
-    if (abortMakeProcess) {
-        m_bAborted = true;
-        m_depgraph->clear();
-        m_pendingTargets.clear();
-        waitForProcesses();
-        waitForJobClient();
-        finishBuild(2);
-    }
+    if (abortMakeProcess && !m_bAborted)
+        abortBuild(2);
 
     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
 }
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index 3379251..c86de31 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -62,6 +62,7 @@ private:
     int numberOfRunningProcesses() const;
     void waitForProcesses();
     void waitForJobClient();
+    void abortBuild(int exitCode);
     void finishBuild(int exitCode);
     void findNextTarget();
 
-- 
2.43.0


From fa5ffdc52d1cd5546460e98609b4abcd8ec4b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 05/47] fix: ignore completion notifications of earlier
 commands

A notification about the output pipe of a command that has ended was taken
for one about the next command of the same job slot: garbage was shown as
output and a second read was started on the same buffer.
---
 src/jomlib/iocompletionport.cpp | 18 +++++++++++-------
 src/jomlib/iocompletionport.h   |  5 +++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/jomlib/iocompletionport.cpp b/src/jomlib/iocompletionport.cpp
index 7844c0e..b9f87cb 100644
--- a/src/jomlib/iocompletionport.cpp
+++ b/src/jomlib/iocompletionport.cpp
@@ -31,6 +31,7 @@ IoCompletionPort *IoCompletionPort::m_instance = 0;
 
 IoCompletionPort::IoCompletionPort()
     : hPort(INVALID_HANDLE_VALUE)
+    , lastKey(0)
 {
     setObjectName(QLatin1String("I/O completion port thread"));
     HANDLE hIOCP = CreateIoCompletionPort(INVALID_HANDLE_VALUE, NULL, NULL, 0);
@@ -63,14 +64,18 @@ void IoCompletionPort::destroyInstance()
 
 void IoCompletionPort::registerObserver(IoCompletionPortObserver *observer, HANDLE hFile)
 {
-    HANDLE hIOCP = CreateIoCompletionPort(hFile, hPort, reinterpret_cast<ULONG_PTR>(observer), 0);
+    // The key identifies this registration. Notifications that belong to an earlier registration of
+    // the same observer must not be mistaken for notifications about hFile.
+    mutex.lock();
+    const ULONG_PTR key = ++lastKey;
+    observers.insert(key, observer);
+    mutex.unlock();
+    HANDLE hIOCP = CreateIoCompletionPort(hFile, hPort, key, 0);
     if (!hIOCP) {
         qWarning("Can't associate file handle with I/O completion port. Error code %d.\n", GetLastError());
+        unregisterObserver(observer);
         return;
     }
-    mutex.lock();
-    observers.insert(observer);
-    mutex.unlock();
     if (!QThread::isRunning())
         QThread::start();
 }
@@ -78,7 +83,7 @@ void IoCompletionPort::registerObserver(IoCompletionPortObserver *observer, HAND
 void IoCompletionPort::unregisterObserver(IoCompletionPortObserver *observer)
 {
     mutex.lock();
-    observers.remove(observer);
+    observers.remove(observers.key(observer));
     mutex.unlock();
 }
 
@@ -106,9 +111,8 @@ void IoCompletionPort::run()
             return;
         }
 
-        IoCompletionPortObserver *observer = reinterpret_cast<IoCompletionPortObserver *>(pulCompletionKey);
         mutex.lock();
-        if (observers.contains(observer))
+        if (IoCompletionPortObserver *observer = observers.value(pulCompletionKey))
             observer->completionPortNotified(dwBytesRead, errorCode);
         mutex.unlock();
     }
diff --git a/src/jomlib/iocompletionport.h b/src/jomlib/iocompletionport.h
index 077c05a..cd5e026 100644
--- a/src/jomlib/iocompletionport.h
+++ b/src/jomlib/iocompletionport.h
@@ -26,7 +26,7 @@
 #ifndef IOCOMPLETIONPORT_H
 #define IOCOMPLETIONPORT_H
 
-#include <qset.h>
+#include <qhash.h>
 #include <qmutex.h>
 #include <qthread.h>
 #include <qt_windows.h>
@@ -57,7 +57,8 @@ private:
 
     static IoCompletionPort *m_instance;
     HANDLE hPort;
-    QSet<IoCompletionPortObserver *> observers;
+    QHash<ULONG_PTR, IoCompletionPortObserver *> observers;
+    ULONG_PTR lastKey;
     QMutex mutex;
 };
 
-- 
2.43.0


From 494dabb5b9b82012ad7a70b0f7857111ff775fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 06/47] fix: read the remaining output of a command that has
 ended

The notification about the end of a process may overtake the ones about
its output. What was still in the pipe, or already read but not yet
reported, was lost.
---
 src/jomlib/jomprocess.cpp | 73 +++++++++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 7 deletions(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index eba65c2..1960b96 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -100,13 +100,19 @@ class ProcessPrivate;
 class OutputChannel : public IoCompletionPortObserver
 {
 public:
+    OutputChannel() : readPending(false) {}
+
     bool startRead();
+    DWORD finishRead();
+    void drain();
+    void handleOutput(DWORD numberOfBytes);
     void completionPortNotified(DWORD numberOfBytes, DWORD errorCode);
 
     ProcessPrivate *d;
     Pipe *pipe;
     FILE *stream;
     QByteArray intermediateOutputBuffer;
+    bool readPending;
     QList<TimeStampedBuffer> buffers;
     QMutex outputBufferLock;
 };
@@ -428,6 +434,8 @@ void Process::onProcessFinished()
     d->deathNotifier.setEnabled(false);
     IoCompletionPort::instance()->unregisterObserver(&d->stdoutChannel);
     IoCompletionPort::instance()->unregisterObserver(&d->stderrChannel);
+    d->stdoutChannel.drain();
+    d->stderrChannel.drain();
     safelyCloseHandle(d->stdoutPipe.hRead);
     safelyCloseHandle(d->stderrPipe.hRead);
     safelyCloseHandle(d->hProcess);
@@ -476,6 +484,7 @@ bool OutputChannel::startRead()
         dwRead = minReadBufferSize;
 
     intermediateOutputBuffer.resize(dwRead);
+    readPending = true;
     bSuccess = ReadFile(pipe->hRead,
                         intermediateOutputBuffer.data(),
                         intermediateOutputBuffer.size(),
@@ -483,12 +492,56 @@ bool OutputChannel::startRead()
                         &pipe->overlapped);
     if (!bSuccess) {
         DWORD dwError = GetLastError();
-        if (dwError != ERROR_IO_PENDING)
+        if (dwError != ERROR_IO_PENDING) {
+            readPending = false;
             return false;
+        }
     }
     return true;
 }
 
+/**
+ * Ends the read operation that is in progress and handles what it has read.
+ * Returns the number of bytes that were read.
+ */
+DWORD OutputChannel::finishRead()
+{
+    if (!readPending)
+        return 0;
+
+    readPending = false;
+    DWORD numberOfBytes = 0;
+    BOOL bSuccess = GetOverlappedResult(pipe->hRead, &pipe->overlapped, &numberOfBytes, FALSE);
+    if (!bSuccess && GetLastError() == ERROR_IO_INCOMPLETE) {
+        CancelIoEx(pipe->hRead, &pipe->overlapped);
+        bSuccess = GetOverlappedResult(pipe->hRead, &pipe->overlapped, &numberOfBytes, TRUE);
+    }
+    if (!bSuccess)
+        return 0;
+
+    handleOutput(numberOfBytes);
+    return numberOfBytes;
+}
+
+/**
+ * Handles the output that is still in the pipe when the process has ended.
+ * The observer must be unregistered already.
+ * Does not wait for output of others that may have inherited the pipe.
+ */
+void OutputChannel::drain()
+{
+    finishRead();
+    DWORD available = 0;
+    if (!PeekNamedPipe(pipe->hRead, NULL, 0, NULL, &available, NULL))
+        return;
+    while (available > 0 && startRead()) {
+        const DWORD numberOfBytes = finishRead();
+        if (numberOfBytes == 0)
+            break;
+        available -= qMin(available, numberOfBytes);
+    }
+}
+
 static void fwrite_binary(FILE *stream, const char *str, size_t count)
 {
     const int fd = _fileno(stream);
@@ -518,6 +571,18 @@ static void fwrite_binary(FILE *stream, const char *str, size_t count)
  * Note: This function is running in the IOCP thread!
  */
 void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
+{
+    readPending = false;
+    handleOutput(numberOfBytes);
+
+    if (errorCode == ERROR_SUCCESS)
+        if (startRead())
+            return;
+
+    QMetaObject::invokeMethod(d->q, "tryToRetrieveExitCode", Qt::QueuedConnection);
+}
+
+void OutputChannel::handleOutput(DWORD numberOfBytes)
 {
     if (numberOfBytes)  {
         d->bufferedOutputModeSwitchMutex.lock();
@@ -533,12 +598,6 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
 
         d->bufferedOutputModeSwitchMutex.unlock();
     }
-
-    if (errorCode == ERROR_SUCCESS)
-        if (startRead())
-            return;
-
-    QMetaObject::invokeMethod(d->q, "tryToRetrieveExitCode", Qt::QueuedConnection);
 }
 
 void Process::printBufferedOutput()
-- 
2.43.0


From 7fd1bb7e18469be0af107dd5789a42f974b3942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 07/47] fix: don't poll for exit codes and accept exit code 259

A command returning 259 (STILL_ACTIVE) was waited for forever. Every
output pipe closed before the end of a process started another endless
chain of timers, which could also apply to a later process.
---
 src/jomlib/jomprocess.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 1960b96..5c2c58e 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -416,14 +416,15 @@ void Process::start(const QString &commandLine)
 
 void Process::tryToRetrieveExitCode()
 {
-    if (d->exitCode == STILL_ACTIVE)
-        if (!GetExitCodeProcess(d->hProcess, &d->exitCode))
-            d->exitCode = STILL_ACTIVE;
+    // The exit code cannot tell whether the process is running, because STILL_ACTIVE (259) is a
+    // valid one. As long as it is running there's nothing to do. The death notifier will call us.
+    if (m_state != Running || WaitForSingleObject(d->hProcess, 0) != WAIT_OBJECT_0)
+        return;
 
-    if (d->exitCode == STILL_ACTIVE)
-        QTimer::singleShot(250, this, SLOT(tryToRetrieveExitCode()));
-    else
+    if (GetExitCodeProcess(d->hProcess, &d->exitCode))
         onProcessFinished();
+    else
+        QTimer::singleShot(250, this, SLOT(tryToRetrieveExitCode()));
 }
 
 void Process::onProcessFinished()
-- 
2.43.0


From 062ae0a8714bf620e9316c625adbd73c7982e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 08/47] fix: close the pipes of a command that could not be
 started

Every failing direct start left six pipe handles open in jom, some of them
inheritable by all later commands, and two reads in progress on buffers
that were used again. Failing to set up a pipe aborted jom as a whole.
---
 src/jomlib/iocompletionport.cpp |  5 +--
 src/jomlib/iocompletionport.h   |  2 +-
 src/jomlib/jomprocess.cpp       | 58 +++++++++++++++++++++------------
 3 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/jomlib/iocompletionport.cpp b/src/jomlib/iocompletionport.cpp
index b9f87cb..3037e88 100644
--- a/src/jomlib/iocompletionport.cpp
+++ b/src/jomlib/iocompletionport.cpp
@@ -62,7 +62,7 @@ void IoCompletionPort::destroyInstance()
     m_instance = 0;
 }
 
-void IoCompletionPort::registerObserver(IoCompletionPortObserver *observer, HANDLE hFile)
+bool IoCompletionPort::registerObserver(IoCompletionPortObserver *observer, HANDLE hFile)
 {
     // The key identifies this registration. Notifications that belong to an earlier registration of
     // the same observer must not be mistaken for notifications about hFile.
@@ -74,10 +74,11 @@ void IoCompletionPort::registerObserver(IoCompletionPortObserver *observer, HAND
     if (!hIOCP) {
         qWarning("Can't associate file handle with I/O completion port. Error code %d.\n", GetLastError());
         unregisterObserver(observer);
-        return;
+        return false;
     }
     if (!QThread::isRunning())
         QThread::start();
+    return QThread::isRunning();
 }
 
 void IoCompletionPort::unregisterObserver(IoCompletionPortObserver *observer)
diff --git a/src/jomlib/iocompletionport.h b/src/jomlib/iocompletionport.h
index cd5e026..ebc16fc 100644
--- a/src/jomlib/iocompletionport.h
+++ b/src/jomlib/iocompletionport.h
@@ -45,7 +45,7 @@ public:
     static IoCompletionPort *instance();
     static void destroyInstance();
 
-    void registerObserver(IoCompletionPortObserver *notifier, HANDLE hFile);
+    bool registerObserver(IoCompletionPortObserver *notifier, HANDLE hFile);
     void unregisterObserver(IoCompletionPortObserver *notifier);
 
 protected:
diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 5c2c58e..0d1a21a 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -134,7 +134,9 @@ public:
         stderrChannel.stream = stderr;
     }
 
+    bool setupPipes();
     bool startRead();
+    void closePipes();
 
     Process *q;
     HANDLE hProcess;
@@ -354,23 +356,11 @@ void Process::start(const QString &commandLine)
 {
     m_state = Starting;
 
-    SECURITY_ATTRIBUTES sa = {0};
-    sa.nLength = sizeof(sa);
-    sa.bInheritHandle = TRUE;
-
-    if (!setupPipe(d->stdinPipe, &sa, InputPipe))
-        qFatal("Cannot setup pipe for stdin.");
-    if (!setupPipe(d->stdoutPipe, &sa, OutputPipe))
-        qFatal("Cannot setup pipe for stdout.");
-    if (!setupPipe(d->stderrPipe, &sa, OutputPipe))
-        qFatal("Cannot setup pipe for stderr.");
-
-    IoCompletionPort::instance()->registerObserver(&d->stdoutChannel, d->stdoutPipe.hRead);
-    IoCompletionPort::instance()->registerObserver(&d->stderrChannel, d->stderrPipe.hRead);
-    if (!d->startRead()) {
+    if (!d->setupPipes() || !d->startRead()) {
+        qWarning("Can't read output channels.");
+        d->closePipes();
         m_state = NotRunning;
         emit error(FailedToStart);
-        qWarning("Can't read output channels.");
         return;
     }
 
@@ -396,6 +386,7 @@ void Process::start(const QString &commandLine)
     free(strCommandLine);
     strCommandLine = 0;
     if (!bResult) {
+        d->closePipes();
         m_state = NotRunning;
         emit error(FailedToStart);
         return;
@@ -433,12 +424,7 @@ void Process::onProcessFinished()
         return;
 
     d->deathNotifier.setEnabled(false);
-    IoCompletionPort::instance()->unregisterObserver(&d->stdoutChannel);
-    IoCompletionPort::instance()->unregisterObserver(&d->stderrChannel);
-    d->stdoutChannel.drain();
-    d->stderrChannel.drain();
-    safelyCloseHandle(d->stdoutPipe.hRead);
-    safelyCloseHandle(d->stderrPipe.hRead);
+    d->closePipes();
     safelyCloseHandle(d->hProcess);
     safelyCloseHandle(d->hProcessThread);
     printBufferedOutput();
@@ -465,6 +451,36 @@ bool Process::waitForFinished()
     return true;
 }
 
+bool ProcessPrivate::setupPipes()
+{
+    SECURITY_ATTRIBUTES sa = {0};
+    sa.nLength = sizeof(sa);
+    sa.bInheritHandle = TRUE;
+
+    return setupPipe(stdinPipe, &sa, InputPipe)
+        && setupPipe(stdoutPipe, &sa, OutputPipe)
+        && setupPipe(stderrPipe, &sa, OutputPipe)
+        && IoCompletionPort::instance()->registerObserver(&stdoutChannel, stdoutPipe.hRead)
+        && IoCompletionPort::instance()->registerObserver(&stderrChannel, stderrPipe.hRead);
+}
+
+/**
+ * Closes all pipe handles that are still open, after reading the remaining output.
+ */
+void ProcessPrivate::closePipes()
+{
+    IoCompletionPort::instance()->unregisterObserver(&stdoutChannel);
+    IoCompletionPort::instance()->unregisterObserver(&stderrChannel);
+    stdoutChannel.drain();
+    stderrChannel.drain();
+    safelyCloseHandle(stdinPipe.hRead);
+    safelyCloseHandle(stdinPipe.hWrite);
+    safelyCloseHandle(stdoutPipe.hRead);
+    safelyCloseHandle(stdoutPipe.hWrite);
+    safelyCloseHandle(stderrPipe.hRead);
+    safelyCloseHandle(stderrPipe.hWrite);
+}
+
 bool ProcessPrivate::startRead()
 {
     return stdoutChannel.startRead() && stderrChannel.startRead();
-- 
2.43.0


From 6e020767240b96f69677a0c1497359e0f8103664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 09/47] fix: fail the target if a command cannot be started

A command that could neither be started directly nor through the command
interpreter aborted jom with qFatal, without waiting for the commands that
were running, even with /K and after the target had been reported.
---
 src/jomlib/commandexecutor.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 4c09811..c46105a 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -212,6 +212,8 @@ void CommandExecutor::executeCurrentCommandLine()
         }
     }
 
+    // Failing to start a command is handled below.
+    m_ignoreProcessErrors = true;
     bool executionSucceeded = false;
     if (simpleCmdLine && !startsWithShellBuiltin(commandLine)) {
         // ### It would be cool if we would not try to start every command directly.
@@ -222,10 +224,8 @@ void CommandExecutor::executeCurrentCommandLine()
         //     Code to locate the binary must be compatible to what CreateProcess does.
 
         //qDebug("+++ direct exec");
-        m_ignoreProcessErrors = true;
         m_process.start(commandLine);
         executionSucceeded = m_process.isRunning();
-        m_ignoreProcessErrors = false;
     }
 
     if (!executionSucceeded) {
@@ -252,8 +252,11 @@ void CommandExecutor::executeCurrentCommandLine()
         executionSucceeded = m_process.isRunning();
     }
 
-    if (!executionSucceeded)
-        qFatal("Can't start command: %s", qPrintable(commandLine));
+    m_ignoreProcessErrors = false;
+    if (!executionSucceeded) {
+        writeToStandardError("jom: Can't start command: " + commandLine.toLocal8Bit() + '\n');
+        onProcessError(Process::FailedToStart);
+    }
 }
 
 void CommandExecutor::createTempFiles()
-- 
2.43.0


From c2f09fd74cebdf6ec96b9717aeaf44e62b5dd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 10/47] fix: abort the build if a job token cannot be acquired

A failing acquisition was never reported back, and neither was a failure
to start the acquisition thread. jom waited for the token forever.
---
 src/jomlib/jobclient.cpp              | 11 +++++++++++
 src/jomlib/jobclient.h                |  2 ++
 src/jomlib/jobclientacquirehelper.cpp |  1 +
 src/jomlib/jobclientacquirehelper.h   |  1 +
 src/jomlib/targetexecutor.cpp         | 13 +++++++++++++
 src/jomlib/targetexecutor.h           |  1 +
 6 files changed, 29 insertions(+)

diff --git a/src/jomlib/jobclient.cpp b/src/jomlib/jobclient.cpp
index 40b94f1..9c48a63 100644
--- a/src/jomlib/jobclient.cpp
+++ b/src/jomlib/jobclient.cpp
@@ -72,7 +72,12 @@ bool JobClient::start()
     m_acquireHelper->moveToThread(m_acquireThread);
     connect(this, &JobClient::startAcquisition, m_acquireHelper, &JobClientAcquireHelper::acquire);
     connect(m_acquireHelper, &JobClientAcquireHelper::acquired, this, &JobClient::onHelperAcquired);
+    connect(m_acquireHelper, &JobClientAcquireHelper::failed, this, &JobClient::onHelperFailed);
     m_acquireThread->start();
+    if (!m_acquireThread->isRunning()) {
+        setError(QLatin1String("Cannot start thread."));
+        return false;
+    }
     return true;
 }
 
@@ -92,6 +97,12 @@ void JobClient::onHelperAcquired()
     emit acquired();
 }
 
+void JobClient::onHelperFailed()
+{
+    m_isAcquiring = false;
+    emit failed();
+}
+
 bool JobClient::isAcquiring() const
 {
     return m_isAcquiring;
diff --git a/src/jomlib/jobclient.h b/src/jomlib/jobclient.h
index 18fe607..601fcec 100644
--- a/src/jomlib/jobclient.h
+++ b/src/jomlib/jobclient.h
@@ -54,9 +54,11 @@ public:
 signals:
     void startAcquisition();
     void acquired();
+    void failed();
 
 private slots:
     void onHelperAcquired();
+    void onHelperFailed();
 
 private:
     void setError(const QString &errorMessage);
diff --git a/src/jomlib/jobclientacquirehelper.cpp b/src/jomlib/jobclientacquirehelper.cpp
index d32e311..5e5e45c 100644
--- a/src/jomlib/jobclientacquirehelper.cpp
+++ b/src/jomlib/jobclientacquirehelper.cpp
@@ -37,6 +37,7 @@ void JobClientAcquireHelper::acquire()
     if (!m_semaphore->acquire()) {
         qWarning("QSystemSemaphore::acquire failed: %s (%d)",
                  qPrintable(m_semaphore->errorString()), m_semaphore->error());
+        emit failed();
         return;
     }
     emit acquired();
diff --git a/src/jomlib/jobclientacquirehelper.h b/src/jomlib/jobclientacquirehelper.h
index 46620d0..f9b7066 100644
--- a/src/jomlib/jobclientacquirehelper.h
+++ b/src/jomlib/jobclientacquirehelper.h
@@ -42,6 +42,7 @@ public slots:
 
 signals:
     void acquired();
+    void failed();
 
 private:
     QSystemSemaphore *m_semaphore;
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 5433917..b797dde 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -82,6 +82,7 @@ void TargetExecutor::apply(Makefile* mkfile, const QStringList& targets)
             throw Exception(msg.arg(m_jobClient->errorString()));
         }
         connect(m_jobClient, &JobClient::acquired, this, &TargetExecutor::buildNextTarget);
+        connect(m_jobClient, &JobClient::failed, this, &TargetExecutor::onAcquisitionFailed);
     }
 
     DescriptionBlock* descblock;
@@ -170,6 +171,17 @@ void TargetExecutor::buildNextTarget()
     }
 }
 
+void TargetExecutor::onAcquisitionFailed()
+{
+    if (m_jobAcquisitionCount > 0)
+        m_jobAcquisitionCount--;
+    if (m_bAborted)
+        return;
+
+    fputs("Error: Cannot acquire a job token.\n", stderr);
+    abortBuild(1);
+}
+
 void TargetExecutor::waitForProcesses()
 {
     foreach (CommandExecutor* process, m_processes)
@@ -182,6 +194,7 @@ void TargetExecutor::waitForJobClient()
         return;
     QEventLoop loop;
     connect(m_jobClient, &JobClient::acquired, &loop, &QEventLoop::quit);
+    connect(m_jobClient, &JobClient::failed, &loop, &QEventLoop::quit);
     loop.exec();
 }
 
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index c86de31..540ca76 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -56,6 +56,7 @@ signals:
 private slots:
     void startProcesses();
     void buildNextTarget();
+    void onAcquisitionFailed();
     void onChildFinished(CommandExecutor*, bool commandFailed);
 
 private:
-- 
2.43.0


From 9b4c133a4686dc51f52cf139edbe5c3672934d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 11/47] fix: write buffered output as one block

The buffered output of a command that ended was written while another
thread was writing the output of the command that is shown live. The two
were mixed, and the binary mode of the stream was switched off too early.
---
 src/jomlib/jomprocess.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 0d1a21a..c7be49d 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -37,6 +37,7 @@
 #include <QMap>
 #include <QMetaType>
 #include <QMutex>
+#include <QMutexLocker>
 #include <QSysInfo>
 #include <QTimer>
 #include <QWinEventNotifier>
@@ -54,6 +55,9 @@ namespace NMakeFile {
 
 Q_GLOBAL_STATIC(QElapsedTimer, runtime)
 
+// Guards against mixing the output of different commands, which is written by different threads.
+static QBasicMutex outputMutex;
+
 struct Pipe
 {
     Pipe()
@@ -610,6 +614,7 @@ void OutputChannel::handleOutput(DWORD numberOfBytes)
             buffers.append(TimeStampedBuffer(runtime()->elapsed(), data));
             outputBufferLock.unlock();
         } else {
+            QMutexLocker locker(&outputMutex);
             fwrite_binary(stream, intermediateOutputBuffer.data(), numberOfBytes);
         }
 
@@ -619,6 +624,7 @@ void OutputChannel::handleOutput(DWORD numberOfBytes)
 
 void Process::printBufferedOutput()
 {
+    QMutexLocker locker(&outputMutex);
     while (!d->stdoutChannel.buffers.isEmpty()
         || !d->stderrChannel.buffers.isEmpty())
     {
-- 
2.43.0


From 169273ec571a1b1633964b4a9008a6122f283392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:14 +0000
Subject: [PATCH 12/47] fix: don't crash if there's nothing to repeat a command
 for

A command line with the ! modifier in a target without dependents expands
to no command at all; jom accessed the first of them.
---
 src/jomlib/commandexecutor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index c46105a..56a3daa 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -86,6 +86,11 @@ void CommandExecutor::start(DescriptionBlock* target)
     m_currentCommandIdx = 0;
     m_nextWorkingDir.clear();
     m_process.setWorkingDirectory(m_nextWorkingDir);
+    if (target->m_commands.isEmpty()) {
+        // There were only commands with the ! modifier and no dependents.
+        finishExecution(false);
+        return;
+    }
     executeCurrentCommandLine();
 }
 
-- 
2.43.0


From cac93de0391e281f6a66ba43ee6899c642585e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 13/47] fix: targets of a batch wait for the command of the
 batch

Only the first target of a batch was treated as being built by the batch
mode command. The others were considered done at once: their parents were
built too early or with outdated time stamps, also after a failure, and
targets with failed dependents were put into batches with /K.
---
 src/jomlib/dependencygraph.cpp | 21 +++++++++++++++++++++
 src/jomlib/makefile.cpp        |  6 ++++++
 src/jomlib/makefile.h          |  1 +
 3 files changed, 28 insertions(+)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 67b9581..7f5372f 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -214,6 +214,15 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
         internalBuild(child, seen);
     }
 
+    if (DescriptionBlock *batchTarget = node->target->m_batchTarget) {
+        Node *child = m_nodeContainer.value(batchTarget);
+        if (child)
+            addEdge(node, child);
+        else
+            child = createNode(batchTarget, node);
+        internalBuild(child, seen);
+    }
+
     if (node->children.isEmpty())
         m_leaves.append(node);
 }
@@ -323,12 +332,24 @@ DescriptionBlock *DependencyGraph::findAvailableTarget(bool ignoreTimeStamps)
     QSet<Makefile*> makefileSet;
     QMultiHash<Makefile*, DescriptionBlock*> multiHash;
     foreach (Node *leaf, m_leaves) {
+        if (leaf->state == Node::Unbuildable)
+            continue;
         makefileSet.insert(leaf->target->makefile());
         multiHash.insert(leaf->target->makefile(), leaf->target);
     }
     foreach (Makefile *mf, makefileSet)
         mf->applyInferenceRules(multiHash.values(mf));
 
+    // targets that are built by the batch mode command of another target have to wait for that one
+    foreach (Node *leaf, m_leaves) {
+        Node *batchNode = m_nodeContainer.value(leaf->target->m_batchTarget);
+        if (batchNode) {
+            addEdge(leaf, batchNode);
+            m_leaves.removeOne(leaf);
+            FastFileInfo::clearCacheForFile(leaf->target->targetName());
+        }
+    }
+
     // return the first leaf that is not currently executed
     foreach (Node *leaf, m_leaves) {
         if (leaf->state != Node::ExecutingState) {
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index c06cb7c..3bf1a71 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -116,6 +116,7 @@ DescriptionBlock::DescriptionBlock(Makefile* mkfile)
     m_bVisitedByCycleCheck(false),
     m_bNoCyclesRootedHere(false),
     m_bInferenceRulesPreselected(false),
+    m_batchTarget(0),
     m_canAddCommands(ACSUnknown),
     m_pMakefile(mkfile)
 {
@@ -647,6 +648,11 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
         QString inferredDependent = rule->inferredDependent(target->targetName());
         if (!executingTarget->m_dependents.contains(inferredDependent))
             executingTarget->m_dependents.append(inferredDependent);
+        if (target != executingTarget) {
+            target->m_batchTarget = executingTarget;
+            if (!target->m_dependents.contains(inferredDependent))
+                target->m_dependents.append(inferredDependent);
+        }
 
         inferredDependents.append(inferredDependent);
         inferredDependents.append(QLatin1Char(' '));
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 28e0632..eab43ca 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -106,6 +106,7 @@ public:
     bool m_bNoCyclesRootedHere;
     bool m_bInferenceRulesPreselected;
     QVector<InferenceRule*> m_inferenceRules;
+    DescriptionBlock *m_batchTarget;    // executes the batch mode command that builds this target
 
     enum AddCommandsState { ACSUnknown, ACSEnabled, ACSDisabled };
     AddCommandsState m_canAddCommands;
-- 
2.43.0


From 3436ba524499bb3a094062472e2da00255437887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:13 +0000
Subject: [PATCH 14/47] fix: resolve relative directories of cd like the shell
 does

A cd with a relative path was resolved against the directory jom runs in,
even after an earlier cd of the same target.
---
 src/jomlib/commandexecutor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 56a3daa..f791e06 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -385,7 +385,8 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
     }
 
     removeDoubleQuotes(args);
-    QFileInfo fi(args);
+    // The path is relative to the directory this target's commands are executed in.
+    QFileInfo fi(QDir(m_process.workingDirectory()).absoluteFilePath(args));
     if (!fi.exists()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
@@ -396,7 +397,7 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
         // ### handle the case where we cd into a dir on a drive != current drive 
     }
 
-    m_nextWorkingDir = fi.absoluteFilePath();
+    m_nextWorkingDir = QDir::cleanPath(fi.absoluteFilePath());
     return true;
 }
 
-- 
2.43.0


From dfe28c7bc9615e74062f5b570475019b90bf7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:50 +0000
Subject: [PATCH 15/47] fix: remove inline files when the target is finished

Inline files of the last targets survived if jom exited because of a missing
dependent of a later target of the command line.
---
 src/jomlib/commandexecutor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index f791e06..a2463b2 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -131,6 +131,7 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
 
 void CommandExecutor::finishExecution(bool commandFailed)
 {
+    cleanupTempFiles();
     m_active = false;
     emit finished(this, commandFailed);
 }
-- 
2.43.0


From 95906822ef208d2540a06500316bc604f6e62191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 16/47] fix: create new inline files if a target is executed
 again

The names of the inline files were put into the command lines of the target.
A target that's executed a second time for another target of the command line
referred to the removed files of the first execution.
---
 src/jomlib/commandexecutor.cpp | 13 +++++++------
 src/jomlib/commandexecutor.h   |  1 +
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index a2463b2..8c7c107 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -79,6 +79,7 @@ void CommandExecutor::start(DescriptionBlock* target)
     }
 
     target->expandFileNameMacros();
+    m_commands = target->m_commands;
     cleanupTempFiles();
     createTempFiles();
 
@@ -86,7 +87,7 @@ void CommandExecutor::start(DescriptionBlock* target)
     m_currentCommandIdx = 0;
     m_nextWorkingDir.clear();
     m_process.setWorkingDirectory(m_nextWorkingDir);
-    if (target->m_commands.isEmpty()) {
+    if (m_commands.isEmpty()) {
         // There were only commands with the ! modifier and no dependents.
         finishExecution(false);
         return;
@@ -107,7 +108,7 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
     if (exitStatus != Process::NormalExit)
         exitCode = 2;
 
-    const Command &currentCommand = m_pTarget->m_commands.at(m_currentCommandIdx);
+    const Command &currentCommand = m_commands.at(m_currentCommandIdx);
     if (static_cast<unsigned int>(exitCode) > currentCommand.m_maxExitCode) {
         QByteArray msg = "jom: ";
         msg += QDir::toNativeSeparators(
@@ -122,7 +123,7 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
     }
 
     ++m_currentCommandIdx;
-    if (m_currentCommandIdx < m_pTarget->m_commands.count()) {
+    if (m_currentCommandIdx < m_commands.count()) {
         executeCurrentCommandLine();
     } else {
         finishExecution(false);
@@ -161,7 +162,7 @@ static bool startsWithShellBuiltin(const QString &commandLine)
 
 void CommandExecutor::executeCurrentCommandLine()
 {
-    const Command& cmd = m_pTarget->m_commands.at(m_currentCommandIdx);
+    const Command& cmd = m_commands.at(m_currentCommandIdx);
     QString commandLine = cmd.m_commandLine;
 
     if (m_pTarget->makefile()->options()->dryRun
@@ -267,8 +268,8 @@ void CommandExecutor::executeCurrentCommandLine()
 
 void CommandExecutor::createTempFiles()
 {
-    QList<Command>::iterator it = m_pTarget->m_commands.begin();
-    QList<Command>::iterator itEnd = m_pTarget->m_commands.end();
+    QList<Command>::iterator it = m_commands.begin();
+    QList<Command>::iterator itEnd = m_commands.end();
     for (; it != itEnd; ++it) {
         Command& cmd = *it;
         foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {
diff --git a/src/jomlib/commandexecutor.h b/src/jomlib/commandexecutor.h
index 04b01e1..782e55b 100644
--- a/src/jomlib/commandexecutor.h
+++ b/src/jomlib/commandexecutor.h
@@ -78,6 +78,7 @@ private:
     static QString      m_tempPath;
     Process             m_process;
     DescriptionBlock*   m_pTarget;
+    QList<Command>      m_commands;     // the target's commands, containing names of inline files
 
     struct TempFile
     {
-- 
2.43.0


From cfa5ed87e87f56835278552cdcca5c322474bc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 17/47] fix: don't execute commands with incomplete inline
 files

Failing to write an inline file was ignored.
---
 src/jomlib/commandexecutor.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 8c7c107..f90e868 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -305,8 +305,14 @@ void CommandExecutor::createTempFiles()
             }
 
             // TODO: do something with inlineFile->m_unicode;
-            tempFile.file->write(content);
+            const bool written = tempFile.file->write(content) == content.length()
+                    && tempFile.file->flush();
             tempFile.file->close();
+            m_tempFiles.append(tempFile);
+            if (!written) {
+                QString msg = QLatin1String("cannot write to %1");
+                throw Exception(msg.arg(fileName));
+            }
 
             QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
             if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
@@ -317,8 +323,6 @@ void CommandExecutor::createTempFiles()
             int idx = cmd.m_commandLine.indexOf(QLatin1String("<<"));
             if (idx > 0)
                 cmd.m_commandLine.replace(idx, 2, replacement);
-
-            m_tempFiles.append(tempFile);
         }
     }
 }
-- 
2.43.0


From 35debc51cc708a48e8723a7402f2b7df2eadc894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 18/47] fix: don't create and remove inline files in dry runs

---
 src/jomlib/commandexecutor.cpp | 44 +++++++++++++++++++---------------
 src/jomlib/commandexecutor.h   |  1 +
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index f90e868..7330d72 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -286,15 +286,6 @@ void CommandExecutor::createTempFiles()
             } else
                 fileName = inlineFile->m_filename;
 
-            TempFile tempFile;
-            tempFile.keep = inlineFile->m_keep;
-            tempFile.file = new QFile(fileName);
-            if (!tempFile.file->open(QFile::WriteOnly)) {
-                delete tempFile.file;
-                QString msg = QLatin1String("cannot open %1 for write");
-                throw Exception(msg.arg(fileName));
-            }
-
             const QByteArray content = inlineFile->m_content.toLocal8Bit();
             if (m_pTarget->makefile()->options()->dumpInlineFiles) {
                 writeToStandardOutput("---");
@@ -304,17 +295,10 @@ void CommandExecutor::createTempFiles()
                 writeToStandardOutput("---end of inline file---\n");
             }
 
-            // TODO: do something with inlineFile->m_unicode;
-            const bool written = tempFile.file->write(content) == content.length()
-                    && tempFile.file->flush();
-            tempFile.file->close();
-            m_tempFiles.append(tempFile);
-            if (!written) {
-                QString msg = QLatin1String("cannot write to %1");
-                throw Exception(msg.arg(fileName));
-            }
+            if (!m_pTarget->makefile()->options()->dryRun)
+                createTempFile(fileName, content, inlineFile->m_keep);
 
-            QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
+            QString replacement = QDir::toNativeSeparators(fileName);
             if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
                 replacement.prepend(QLatin1Char('"'));
                 replacement.append(QLatin1Char('"'));
@@ -327,6 +311,28 @@ void CommandExecutor::createTempFiles()
     }
 }
 
+void CommandExecutor::createTempFile(const QString &fileName, const QByteArray &content, bool keep)
+{
+    TempFile tempFile;
+    tempFile.keep = keep;
+    tempFile.file = new QFile(fileName);
+    if (!tempFile.file->open(QFile::WriteOnly)) {
+        delete tempFile.file;
+        QString msg = QLatin1String("cannot open %1 for write");
+        throw Exception(msg.arg(fileName));
+    }
+
+    // TODO: do something with inlineFile->m_unicode;
+    const bool written = tempFile.file->write(content) == content.length()
+            && tempFile.file->flush();
+    tempFile.file->close();
+    m_tempFiles.append(tempFile);
+    if (!written) {
+        QString msg = QLatin1String("cannot write to %1");
+        throw Exception(msg.arg(fileName));
+    }
+}
+
 void CommandExecutor::cleanupTempFiles()
 {
     while (!m_tempFiles.isEmpty()) {
diff --git a/src/jomlib/commandexecutor.h b/src/jomlib/commandexecutor.h
index 782e55b..15070fb 100644
--- a/src/jomlib/commandexecutor.h
+++ b/src/jomlib/commandexecutor.h
@@ -67,6 +67,7 @@ private:
     void finishExecution(bool commandFailed);
     void executeCurrentCommandLine();
     void createTempFiles();
+    void createTempFile(const QString &fileName, const QByteArray &content, bool keep);
     void writeToChannel(const QByteArray& data, FILE *channel);
     void writeToStandardOutput(const QByteArray& data);
     void writeToStandardError(const QByteArray& data);
-- 
2.43.0


From 2db18f5e46b23305244c555a09acbd3637e3f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 19/47] fix: don't leave inline files behind when terminated
 with Ctrl-C

The console control handler runs in a thread of its own. It removed inline
files while the main thread was changing the list of inline files, which
crashed or left files behind.
---
 src/app/main.cpp               | 24 ++++++++++++++++++++++--
 src/jomlib/commandexecutor.cpp | 20 ++++++++++++++++++++
 src/jomlib/commandexecutor.h   |  2 ++
 src/jomlib/targetexecutor.cpp  |  6 +++++-
 4 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index c310836..557a300 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -35,6 +35,8 @@
 
 #include <QDebug>
 #include <QDir>
+#include <QMutex>
+#include <QMutexLocker>
 #include <QProcess>
 #include <QScopedPointer>
 #include <QTextCodec>
@@ -82,6 +84,24 @@ static void showUsage()
 }
 
 static TargetExecutor* g_pTargetExecutor = 0;
+static QBasicMutex g_targetExecutorMutex;
+
+/**
+ * Makes the TargetExecutor known to the console control handler as long as it exists.
+ */
+class TargetExecutorRegistration
+{
+public:
+    TargetExecutorRegistration(TargetExecutor *executor) { set(executor); }
+    ~TargetExecutorRegistration() { set(0); }
+
+private:
+    static void set(TargetExecutor *executor)
+    {
+        QMutexLocker locker(&g_targetExecutorMutex);
+        g_pTargetExecutor = executor;
+    }
+};
 
 BOOL WINAPI ConsoleCtrlHandlerRoutine(DWORD dwCtrlType)
 {
@@ -90,6 +110,7 @@ BOOL WINAPI ConsoleCtrlHandlerRoutine(DWORD dwCtrlType)
     fflush(stderr);
 
     GenerateConsoleCtrlEvent(CTRL_C_EVENT, 0);
+    g_targetExecutorMutex.lock();   // The executor must not be destroyed until jom exits.
     if (g_pTargetExecutor)
         g_pTargetExecutor->removeTempFiles();
 
@@ -212,12 +233,11 @@ int main(int argc, char* argv[])
 
         TargetExecutor executor(processEnvironment);
         QObject::connect(&executor, SIGNAL(finished(int)), &app, SLOT(exit(int)));
-        g_pTargetExecutor = &executor;
+        const TargetExecutorRegistration registration(&executor);
         executor.apply(mkfile.data(), mf.activeTargets());
 
         QMetaObject::invokeMethod(&executor, "startProcesses", Qt::QueuedConnection);
         result = app.exec();
-        g_pTargetExecutor = 0;
         if (options->printWorkingDir) {
             printf("jom: Leaving directory '%s'\n",
                    qPrintable(QDir::toNativeSeparators(QDir::currentPath())));
diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 7330d72..587c1d9 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -31,12 +31,17 @@
 
 #include <QtCore/QDebug>
 #include <QtCore/QDir>
+#include <QtCore/QMutex>
+#include <QtCore/QMutexLocker>
 #include <QtCore/QRegExp>
 #include <QStringList>
 #include <windows.h>
 
 namespace NMakeFile {
 
+// Guards the lists of inline files against being accessed by the console control handler's thread.
+static QBasicMutex tempFilesMutex;
+
 ulong CommandExecutor::m_startUpTickCount = 0;
 QString CommandExecutor::m_tempPath;
 
@@ -313,6 +318,7 @@ void CommandExecutor::createTempFiles()
 
 void CommandExecutor::createTempFile(const QString &fileName, const QByteArray &content, bool keep)
 {
+    QMutexLocker locker(&tempFilesMutex);
     TempFile tempFile;
     tempFile.keep = keep;
     tempFile.file = new QFile(fileName);
@@ -334,6 +340,20 @@ void CommandExecutor::createTempFile(const QString &fileName, const QByteArray &
 }
 
 void CommandExecutor::cleanupTempFiles()
+{
+    QMutexLocker locker(&tempFilesMutex);
+    removeTempFiles();
+}
+
+/**
+ * Blocks the creation and removal of inline files in other threads until jom exits.
+ */
+void CommandExecutor::lockTempFiles()
+{
+    tempFilesMutex.lock();
+}
+
+void CommandExecutor::removeTempFiles()
 {
     while (!m_tempFiles.isEmpty()) {
         const TempFile& tempfile = m_tempFiles.takeLast();
diff --git a/src/jomlib/commandexecutor.h b/src/jomlib/commandexecutor.h
index 15070fb..fb7da5a 100644
--- a/src/jomlib/commandexecutor.h
+++ b/src/jomlib/commandexecutor.h
@@ -49,6 +49,8 @@ public:
     bool isActive() const { return m_active; }
     void waitForFinished();
     void cleanupTempFiles();
+    static void lockTempFiles();
+    void removeTempFiles();
     void setBufferedOutput(bool b) { m_process.setBufferedOutput(b); }
     bool isBufferedOutputSet() const { return m_process.isBufferedOutputSet(); }
 
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index b797dde..76e7f82 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -291,14 +291,18 @@ int TargetExecutor::numberOfRunningProcesses() const
     return m_processes.count() - m_availableProcesses.count();
 }
 
+/**
+ * Removes the inline files when jom is terminated by the console control handler's thread.
+ */
 void TargetExecutor::removeTempFiles()
 {
+    CommandExecutor::lockTempFiles();
     foreach (QObject* child, children()) {
         CommandExecutor* cmdex = qobject_cast<CommandExecutor*>(child);
         if (!cmdex)
             continue;
 
-        cmdex->cleanupTempFiles();
+        cmdex->removeTempFiles();
     }
 }
 
-- 
2.43.0


From ab8bffb5caa631267c9b25df861629e95fd9cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:37 +0000
Subject: [PATCH 20/47] fix: don't build targets after dumping the dependency
 graph

The application cannot be quit before its event loop is entered.
---
 src/jomlib/targetexecutor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 76e7f82..7e550e9 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -110,8 +110,10 @@ void TargetExecutor::apply(Makefile* mkfile, const QStringList& targets)
             m_depgraph->dotDump();
         else
             m_depgraph->dump();
-        finishBuild(0);
-        return;
+
+        // Don't build anything.
+        m_depgraph->clear();
+        m_pendingTargets.clear();
     }
 
     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
-- 
2.43.0


From 8d29799c1d52fb7df4b365b3c0571dd2e14e6234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:37 +0000
Subject: [PATCH 21/47] fix: show the commands of all out of date targets in
 dry runs

The dependents of targets that are not updated by the dry run were considered
up to date.
---
 src/jomlib/dependencygraph.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 7f5372f..caf63ef 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -174,8 +174,14 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
         target->m_inferenceRules = savedRules;
     }
 
-    if (!isUpToDate && target->m_bFileExists)
-        target->m_timeStamp.clear();
+    if (!isUpToDate && target->m_bFileExists) {
+        if (target->makefile()->options()->dryRun) {
+            // The file would be updated now. Reading its time stamp again would be of no use.
+            target->m_timeStamp = FileTime::currentTime();
+        } else {
+            target->m_timeStamp.clear();
+        }
+    }
 
     return isUpToDate;
 }
-- 
2.43.0


From 3d07c3de428b5ad45ade4f9ba24c429606e31436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:57 +0000
Subject: [PATCH 22/47] fix: read the time stamps of all files again for every
 target of the command line

Files that were changed by the commands of one target, but are not targets of
the makefile themselves, were not considered changed by the following targets.
---
 src/jomlib/fastfileinfo.cpp   | 5 +++++
 src/jomlib/fastfileinfo.h     | 1 +
 src/jomlib/targetexecutor.cpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/jomlib/fastfileinfo.cpp b/src/jomlib/fastfileinfo.cpp
index 6926a34..95dae39 100644
--- a/src/jomlib/fastfileinfo.cpp
+++ b/src/jomlib/fastfileinfo.cpp
@@ -96,4 +96,9 @@ void FastFileInfo::clearCacheForFile(const QString &fileName)
     fadHash.remove(fileName);
 }
 
+void FastFileInfo::clearCache()
+{
+    fadHash.clear();
+}
+
 } // NMakeFile
diff --git a/src/jomlib/fastfileinfo.h b/src/jomlib/fastfileinfo.h
index a201e85..0540d47 100644
--- a/src/jomlib/fastfileinfo.h
+++ b/src/jomlib/fastfileinfo.h
@@ -39,6 +39,7 @@ public:
     FileTime lastModified() const;
 
     static void clearCacheForFile(const QString &fileName);
+    static void clearCache();
 
     struct InternalType
     {
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 7e550e9..3c0128f 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -144,6 +144,7 @@ void TargetExecutor::startProcesses()
                 } else {
                     m_depgraph->clear();
                     m_makefile->invalidateTimeStamps();
+                    FastFileInfo::clearCache();
                     m_depgraph->build(m_pendingTargets.takeFirst());
                     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
                 }
-- 
2.43.0


From 4f0a796b9766b49c10cd43eceff88adb58a98818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:41 +0000
Subject: [PATCH 23/47] fix: don't build if a makefile or command file cannot
 be read completely

A read error was taken for the end of the file.
---
 src/jomlib/makefilelinereader.h |  1 +
 src/jomlib/options.cpp          |  4 ++++
 src/jomlib/preprocessor.cpp     | 15 +++++++++------
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/makefilelinereader.h b/src/jomlib/makefilelinereader.h
index fdf3394..4e00aad 100644
--- a/src/jomlib/makefilelinereader.h
+++ b/src/jomlib/makefilelinereader.h
@@ -57,6 +57,7 @@ public:
     bool open();
     void close();
     MakefileLine readLine(bool bInlineFileMode);
+    bool hasError() const { return m_file.error() != QFile::NoError; }
     QString fileName() const { return m_file.fileName(); }
     uint lineNumber() const { return m_nLineNumber; }
 
diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index 01ce796..96d7db4 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -162,6 +162,10 @@ bool Options::expandCommandFiles(QStringList& arguments)
 
                 rawCommandFileArgs.append(QString::fromLocal8Bit(lineData));
             } while (true);
+            if (file.error() != QFile::NoError) {
+                fprintf(stderr, "Can't read command file: %s\n", qPrintable(fileName));
+                return false;
+            }
             file.close();
 
             foreach (const QString& rawArg, rawCommandFileArgs) {
diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index b0e001c..c6e0931 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -144,15 +144,18 @@ MakefileLine Preprocessor::basicReadLine()
     if (m_fileStack.isEmpty())
         return {};
 
-    MakefileLine line = m_fileStack.top().reader->readLine(m_bInlineFileMode);
-    while (line.content.isNull()) {
-        delete m_fileStack.top().reader;
+    forever {
+        MakefileLineReader *reader = m_fileStack.top().reader;
+        MakefileLine line = reader->readLine(m_bInlineFileMode);
+        if (reader->hasError())
+            error(QLatin1Literal("Can't read ") + reader->fileName());
+        if (!line.content.isNull())
+            return line;
+        delete reader;
         m_fileStack.pop();
         if (m_fileStack.isEmpty())
-            break;
-        line = m_fileStack.top().reader->readLine(m_bInlineFileMode);
+            return line;
     }
-    return line;
 }
 
 static QString leftTrimmed(const QString &str)
-- 
2.43.0


From 624b21008e678c32a73ddb62af6bb5b64c384b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:09 +0000
Subject: [PATCH 24/47] fix: return a job token that is acquired while the
 build is aborted

A jom that waits for its running sub-joms after a failure kept the token
it got from a pending acquisition. If that was the last one, the sub-joms
never got a token and the build never ended.
---
 src/jomlib/targetexecutor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 3c0128f..9770357 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -160,8 +160,14 @@ void TargetExecutor::buildNextTarget()
 {
     Q_ASSERT(m_nextTarget);
 
-    if (m_bAborted)
+    if (m_bAborted) {
+        // Sub-joms we're still waiting for may need the job token that isn't used anymore.
+        if (m_jobAcquisitionCount > 0) {
+            m_jobClient->release();
+            m_jobAcquisitionCount--;
+        }
         return;
+    }
 
     try {
         CommandExecutor *executor = m_availableProcesses.takeFirst();
-- 
2.43.0


From e57aa1ec727a11bf58df4c494680e3c817fa3364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:54 +0000
Subject: [PATCH 25/47] fix: a target with a missing dependent is out of date
 regardless of the clock

---
 src/jomlib/dependencygraph.cpp | 6 +++---
 src/jomlib/filetime.cpp        | 8 ++++++++
 src/jomlib/filetime.h          | 1 +
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index caf63ef..fa299c7 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -123,7 +123,7 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
                 if (!dependent->m_bFileExists && !dependent->m_commands.isEmpty()) {
                     // Mimic insane nmake behaviour: If the dependent is a pseudotarget
                     // and has commands, then this target is out of date.
-                    latestDependentTime = FileTime::currentTime();
+                    latestDependentTime = FileTime::latestTime();
                     break;
                 }
             }
@@ -136,7 +136,7 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
 
             if (!ts.isValid()) {
                 // File does not exist, so it gets the latest time stamp.
-                latestDependentTime = FileTime::currentTime();
+                latestDependentTime = FileTime::latestTime();
                 break;
             }
 
@@ -177,7 +177,7 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
     if (!isUpToDate && target->m_bFileExists) {
         if (target->makefile()->options()->dryRun) {
             // The file would be updated now. Reading its time stamp again would be of no use.
-            target->m_timeStamp = FileTime::currentTime();
+            target->m_timeStamp = FileTime::latestTime();
         } else {
             target->m_timeStamp.clear();
         }
diff --git a/src/jomlib/filetime.cpp b/src/jomlib/filetime.cpp
index be36d48..b828f13 100644
--- a/src/jomlib/filetime.cpp
+++ b/src/jomlib/filetime.cpp
@@ -64,6 +64,14 @@ FileTime FileTime::currentTime()
     return result;
 }
 
+/**
+ * Returns a time stamp that is later than the time stamp of every file.
+ */
+FileTime FileTime::latestTime()
+{
+    return FileTime(Q_INT64_C(0x7fffffffffffffff));
+}
+
 QString FileTime::toString() const
 {
     const FILETIME *const ft = reinterpret_cast<const FILETIME *>(&m_fileTime);
diff --git a/src/jomlib/filetime.h b/src/jomlib/filetime.h
index 5d1b609..3f21ad2 100644
--- a/src/jomlib/filetime.h
+++ b/src/jomlib/filetime.h
@@ -58,6 +58,7 @@ public:
     InternalType internalRepresentation() const { return m_fileTime; }
 
     static FileTime currentTime();
+    static FileTime latestTime();
 
 private:
     friend class FastFileInfo;
-- 
2.43.0


From 78115b9535ad4085375fb2d756fcd4a064056958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:01 +0000
Subject: [PATCH 26/47] fix: consider only the inference rule that is going to
 be applied when deciding whether a target is up-to-date

If the source files of several inference rules of a target exist, then the one
with the highest priority is applied. A newer source file of another rule must
not cause a rebuild of the target.
---
 src/jomlib/dependencygraph.cpp |  3 ++-
 src/jomlib/makefile.cpp        | 23 ++++++++++++++++-------
 src/jomlib/makefile.h          |  1 +
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index fa299c7..bcde2c6 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -159,7 +159,8 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
         target->m_inferenceRules.clear();
 
         bool inferredDependentAdded = false;
-        foreach (InferenceRule *rule, savedRules) {
+        const InferenceRule *rule = target->makefile()->matchingInferenceRule(savedRules, target->targetName());
+        if (rule) {
             QString inferredDependent = rule->inferredDependent(target->targetName());
             if (!target->m_dependents.contains(inferredDependent) && FastFileInfo(inferredDependent).exists()) {
                 inferredDependentAdded = true;
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 3bf1a71..93b8cf0 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -591,21 +591,30 @@ void Makefile::applyInferenceRules(DescriptionBlock* target)
     if (target->m_inferenceRules.isEmpty())
         return;
 
-    QVector<InferenceRule *> rules = target->m_inferenceRules;
-    filterRulesByDependent(rules, target->targetName());
-    std::stable_sort(rules.begin(), rules.end(), &infRulesPriorityGreaterThan);
-
-    if (rules.isEmpty()) {
+    const InferenceRule* matchingRule = matchingInferenceRule(target->m_inferenceRules, target->targetName());
+    if (!matchingRule) {
         //qDebug() << "XXX" << target->m_targetName << "no matching inference rule found.";
         return;
     }
 
-    // take the last matching inference rule
-    const InferenceRule* matchingRule = rules.last();
     applyInferenceRule(target, matchingRule);
     target->m_inferenceRules.clear();
 }
 
+/**
+ * Returns the rule that is applied to the target or null if there's none.
+ */
+const InferenceRule *Makefile::matchingInferenceRule(QVector<InferenceRule *> rules, const QString &targetName)
+{
+    filterRulesByDependent(rules, targetName);
+    if (rules.isEmpty())
+        return 0;
+
+    // take the last matching inference rule
+    std::stable_sort(rules.begin(), rules.end(), &infRulesPriorityGreaterThan);
+    return rules.last();
+}
+
 void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule* rule, bool applyingBatchMode)
 {
     if (!applyingBatchMode && m_options->batchModeEnabled && rule->m_batchMode) {
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index eab43ca..e8b4586 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -204,6 +204,7 @@ public:
     void dumpInferenceRules() const;
     void invalidateTimeStamps();
     void applyInferenceRules(QList<DescriptionBlock*> targets);
+    const InferenceRule *matchingInferenceRule(QVector<InferenceRule *> rules, const QString &targetName);
     void addInferenceRule(InferenceRule *rule);
     void calculateInferenceRulePriorities(const QStringList &suffixes);
     void addPreciousTarget(const QString& targetName);
-- 
2.43.0


From 3944d1f47663bb10d994ff50f47dbb1d12b585ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:13 +0000
Subject: [PATCH 27/47] fix: don't drop the rest of a unicode makefile behind
 its first inline file

The content of inline files was read from the file the text stream has buffered
already. The inline file and everything behind it was silently ignored.
---
 src/jomlib/makefilelinereader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index ee20d86..6bb3573 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -92,6 +92,13 @@ MakefileLine MakefileLineReader::readLine(bool bInlineFileMode)
 {
     if (bInlineFileMode) {
         m_nLineNumber++;
+        if (m_textStream.device()) {
+            // Reading from m_file would miss what the text stream has read already.
+            QString str = m_textStream.readLine();
+            if (!str.isNull())
+                str += QLatin1Char('\n');
+            return MakefileLine{ str };
+        }
         return MakefileLine{ QString::fromLatin1(m_file.readLine()) };
     }
 
-- 
2.43.0


From 3413eba01a4678d5673a14489ee3599cf0e23670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 28/47] fix: don't guess the encoding of a makefile that cannot
 be read

An error while looking for the byte order mark went unnoticed if the next
attempt to read succeeded. A unicode makefile was taken for an 8 bit one.
---
 src/jomlib/makefilelinereader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index 6bb3573..48b1b02 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -53,6 +53,8 @@ bool MakefileLineReader::open()
     enum FileEncoding { FCLatin1, FCUTF8, FCUTF16 };
     FileEncoding fileEncoding = FCLatin1;
     QByteArray buf = m_file.peek(3);
+    if (m_file.error() != QFile::NoError)
+        return false;   // The encoding is unknown.
     if (buf.startsWith("\xFF\xFE"))
         fileEncoding = FCUTF16;
     else if (buf.startsWith("\xEF\xBB\xBF"))
-- 
2.43.0


From 6743c0ef297ce4835387d5cded8090ac62526f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:43 +0000
Subject: [PATCH 29/47] fix: form batches anew for every target of the command
 line

Members of a batch that were needed by a later target once more, after they
had been deleted, were not built again, because the batch was up-to-date.
---
 src/jomlib/dependencygraph.cpp |  9 ---------
 src/jomlib/makefile.cpp        | 18 +++++++++++++++++-
 src/jomlib/makefile.h          |  9 +++++++++
 src/jomlib/targetexecutor.cpp  |  1 +
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index bcde2c6..5d66b0e 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -221,15 +221,6 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
         internalBuild(child, seen);
     }
 
-    if (DescriptionBlock *batchTarget = node->target->m_batchTarget) {
-        Node *child = m_nodeContainer.value(batchTarget);
-        if (child)
-            addEdge(node, child);
-        else
-            child = createNode(batchTarget, node);
-        internalBuild(child, seen);
-    }
-
     if (node->children.isEmpty())
         m_leaves.append(node);
 }
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 93b8cf0..b629005 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -598,7 +598,21 @@ void Makefile::applyInferenceRules(DescriptionBlock* target)
     }
 
     applyInferenceRule(target, matchingRule);
-    target->m_inferenceRules.clear();
+}
+
+/**
+ * Undoes the application of batch mode rules. Another goal may need other members of a batch than those
+ * the batch was formed of, or some of them once more.
+ */
+void Makefile::dissolveBatches()
+{
+    foreach (const BatchMember &member, m_batchMembers) {
+        member.target->m_commands.clear();
+        member.target->m_dependents = member.dependents;
+        member.target->m_inferenceRules = member.inferenceRules;
+        member.target->m_batchTarget = 0;
+    }
+    m_batchMembers.clear();
 }
 
 /**
@@ -653,6 +667,8 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
     QString inferredDependents;
     DescriptionBlock *executingTarget = batch.first();
     foreach (DescriptionBlock *target, batch) {
+        const BatchMember member = { target, target->m_dependents, target->m_inferenceRules };
+        m_batchMembers.append(member);
         target->m_inferenceRules.clear();
         QString inferredDependent = rule->inferredDependent(target->targetName());
         if (!executingTarget->m_dependents.contains(inferredDependent))
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index e8b4586..03b90d5 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -204,6 +204,7 @@ public:
     void dumpInferenceRules() const;
     void invalidateTimeStamps();
     void applyInferenceRules(QList<DescriptionBlock*> targets);
+    void dissolveBatches();
     const InferenceRule *matchingInferenceRule(QVector<InferenceRule *> rules, const QString &targetName);
     void addInferenceRule(InferenceRule *rule);
     void calculateInferenceRulePriorities(const QStringList &suffixes);
@@ -227,6 +228,14 @@ private:
     Options* m_options;
     QSet<const InferenceRule*> m_batchModeRules;
     QMultiHash<const InferenceRule*, DescriptionBlock*> m_batchModeTargets;
+
+    struct BatchMember
+    {
+        DescriptionBlock *target;
+        QStringList dependents;
+        QVector<InferenceRule*> inferenceRules;
+    };
+    QList<BatchMember> m_batchMembers;
     bool m_parallelExecutionDisabled;
 };
 
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 9770357..a3a1c1d 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -144,6 +144,7 @@ void TargetExecutor::startProcesses()
                 } else {
                     m_depgraph->clear();
                     m_makefile->invalidateTimeStamps();
+                    m_makefile->dissolveBatches();
                     FastFileInfo::clearCache();
                     m_depgraph->build(m_pendingTargets.takeFirst());
                     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
-- 
2.43.0


From 0838eaa2741445511c03a75171b9db755cc0aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:38 +0000
Subject: [PATCH 30/47] fix: 'cd' to a file fails instead of making it the
 working directory

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 587c1d9..a403d8e 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -419,7 +419,7 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
     removeDoubleQuotes(args);
     // The path is relative to the directory this target's commands are executed in.
     QFileInfo fi(QDir(m_process.workingDirectory()).absoluteFilePath(args));
-    if (!fi.exists()) {
+    if (!fi.isDir()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
         return false;
-- 
2.43.0


From f184fa00e21a1eee68f95ece44ad02b05b9cf6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:57 +0000
Subject: [PATCH 31/47] fix: wildcards in dependents do not match the
 directories . and ..

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index f126a3e..01c57c2 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -372,7 +372,7 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
                 str.remove(0, idx + 1);
             }
 
-            QDirIterator dit(path, QStringList(str));
+            QDirIterator dit(path, QStringList(str), QDir::AllEntries | QDir::NoDotAndDotDot);
             while (dit.hasNext()) {
                 QString filePath = dit.next();
                 if (filePath.startsWith(dirPath, Qt::CaseInsensitive)) {
-- 
2.43.0


From 39fc45095019121f0c80a8d074e7101d80a783f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:06 +0000
Subject: [PATCH 32/47] fix: expand file name macros in dependents listed
 before .SYNC

---
 src/jomlib/makefile.cpp | 8 ++++----
 src/jomlib/makefile.h   | 2 +-
 src/jomlib/parser.cpp   | 9 ++++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index b629005..978d308 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -128,12 +128,12 @@ void DescriptionBlock::setTargetName(const QString& name)
 }
 
 /**
- * Expands the following macros for the dependents of this target.
+ * Expands the file name macros in the given dependents of this target.
  */
-void DescriptionBlock::expandFileNameMacrosForDependents()
+void DescriptionBlock::expandFileNameMacrosForDependents(QStringList &dependents)
 {
-    QStringList::iterator it = m_dependents.begin();
-    for (; it != m_dependents.end(); ++it) {
+    QStringList::iterator it = dependents.begin();
+    for (; it != dependents.end(); ++it) {
         QString& dependent = *it;
         expandFileNameMacros(dependent, -1, true);
     }
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 03b90d5..f46ce29 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -80,7 +80,7 @@ class DescriptionBlock : public CommandContainer {
 public:
     DescriptionBlock(Makefile* mkfile);
 
-    void expandFileNameMacrosForDependents();
+    void expandFileNameMacrosForDependents(QStringList &dependents);
     void expandFileNameMacros();
 
     void setTargetName(const QString& name);
diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 01c57c2..27492f0 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -423,6 +423,7 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     dependents = expandWildcards(m_makefile->dirPath(), dependents);
 
     // handle the special .SYNC dependents
+    auto removeSyncPoints = [this](QStringList &dependents)
     {
         QStringList syncDeps;
         int k = 0;
@@ -438,7 +439,7 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
                 ++i;
             }
         }
-    }
+    };
 
     foreach (const QString& t, targets) {
         if (t == QStringLiteral(".NOTPARALLEL")) {
@@ -461,8 +462,10 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
             descblock->m_canAddCommands = canAddCommands;
             canAddCommands = DescriptionBlock::ACSEnabled;
         }
-        descblock->m_dependents.append(dependents);
-        descblock->expandFileNameMacrosForDependents();
+        QStringList targetDependents = dependents;
+        descblock->expandFileNameMacrosForDependents(targetDependents);
+        removeSyncPoints(targetDependents);
+        descblock->m_dependents.append(targetDependents);
 
         if (!commands.isEmpty()) {
             if (canAddCommands == DescriptionBlock::ACSEnabled || descblock->m_commands.isEmpty())
-- 
2.43.0


From 89911b8b2da74f0a09dcbbf63423107630feae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:09 +0000
Subject: [PATCH 33/47] fix: expand file name macros anew if a target is
 executed again

---
 src/jomlib/commandexecutor.cpp |  3 ++-
 src/jomlib/makefile.cpp        | 13 +++++++++----
 src/jomlib/makefile.h          |  1 +
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index a403d8e..20563ea 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -83,8 +83,9 @@ void CommandExecutor::start(DescriptionBlock* target)
         return;
     }
 
-    target->expandFileNameMacros();
+    // Work on a copy: if the target is executed again, then its macros have new values.
     m_commands = target->m_commands;
+    target->expandFileNameMacros(m_commands);
     cleanupTempFiles();
     createTempFiles();
 
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 978d308..8060b4e 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -141,16 +141,21 @@ void DescriptionBlock::expandFileNameMacrosForDependents(QStringList &dependents
 
 void DescriptionBlock::expandFileNameMacros()
 {
-    QList<Command>::iterator it = m_commands.begin();
-    while (it != m_commands.end()) {
+    expandFileNameMacros(m_commands);
+}
+
+void DescriptionBlock::expandFileNameMacros(QList<Command> &commands)
+{
+    QList<Command>::iterator it = commands.begin();
+    while (it != commands.end()) {
         if ((*it).m_singleExecution) {
             Command origCommand = *it;
-            it = m_commands.erase(it);
+            it = commands.erase(it);
             for (int i=0; i < m_dependents.count(); ++i) {
                 Command newCommand = origCommand;
                 newCommand.m_singleExecution = false;
                 expandFileNameMacros(newCommand, i);
-                it = m_commands.insert(it, newCommand);
+                it = commands.insert(it, newCommand);
                 ++it;
             }
         } else {
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index f46ce29..59f046f 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -82,6 +82,7 @@ public:
 
     void expandFileNameMacrosForDependents(QStringList &dependents);
     void expandFileNameMacros();
+    void expandFileNameMacros(QList<Command> &commands);
 
     void setTargetName(const QString& name);
 
-- 
2.43.0


From 1bc7196c51a8b558bc566f4019ce4d160e7dba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:05 +0000
Subject: [PATCH 34/47] fix: read a command's output again after a failed
 attempt

---
 src/jomlib/jomprocess.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 src/jomlib/jomprocess.h   |  1 +
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index c7be49d..4014e9b 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -104,9 +104,10 @@ class ProcessPrivate;
 class OutputChannel : public IoCompletionPortObserver
 {
 public:
-    OutputChannel() : readPending(false) {}
+    OutputChannel() : readPending(false), readFailed(0) {}
 
     bool startRead();
+    bool retryRead();
     DWORD finishRead();
     void drain();
     void handleOutput(DWORD numberOfBytes);
@@ -117,6 +118,7 @@ public:
     FILE *stream;
     QByteArray intermediateOutputBuffer;
     bool readPending;
+    QAtomicInt readFailed;
     QList<TimeStampedBuffer> buffers;
     QMutex outputBufferLock;
 };
@@ -422,6 +424,17 @@ void Process::tryToRetrieveExitCode()
         QTimer::singleShot(250, this, SLOT(tryToRetrieveExitCode()));
 }
 
+void Process::retryFailedReads()
+{
+    if (m_state != Running)
+        return;
+
+    const bool stdoutReady = d->stdoutChannel.retryRead();
+    const bool stderrReady = d->stderrChannel.retryRead();
+    if (!stdoutReady || !stderrReady)
+        QTimer::singleShot(250, this, SLOT(retryFailedReads()));
+}
+
 void Process::onProcessFinished()
 {
     if (m_state != Running)
@@ -521,6 +534,19 @@ bool OutputChannel::startRead()
     return true;
 }
 
+/**
+ * Tries again to start a read operation that could not be started.
+ * Returns false, if it still cannot be started.
+ */
+bool OutputChannel::retryRead()
+{
+    if (!readFailed.testAndSetOrdered(1, 0) || startRead() || GetLastError() == ERROR_BROKEN_PIPE)
+        return true;
+
+    readFailed.fetchAndStoreOrdered(1);
+    return false;
+}
+
 /**
  * Ends the read operation that is in progress and handles what it has read.
  * Returns the number of bytes that were read.
@@ -551,6 +577,7 @@ DWORD OutputChannel::finishRead()
  */
 void OutputChannel::drain()
 {
+    readFailed.fetchAndStoreOrdered(0);
     finishRead();
     DWORD available = 0;
     if (!PeekNamedPipe(pipe->hRead, NULL, 0, NULL, &available, NULL))
@@ -596,9 +623,16 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
     readPending = false;
     handleOutput(numberOfBytes);
 
-    if (errorCode == ERROR_SUCCESS)
+    if (errorCode == ERROR_SUCCESS) {
         if (startRead())
             return;
+        if (GetLastError() != ERROR_BROKEN_PIPE) {
+            // The process would wait for ever if nobody read its output.
+            readFailed.fetchAndStoreOrdered(1);
+            QMetaObject::invokeMethod(d->q, "retryFailedReads", Qt::QueuedConnection);
+            return;
+        }
+    }
 
     QMetaObject::invokeMethod(d->q, "tryToRetrieveExitCode", Qt::QueuedConnection);
 }
diff --git a/src/jomlib/jomprocess.h b/src/jomlib/jomprocess.h
index 1dac079..1281ef1 100644
--- a/src/jomlib/jomprocess.h
+++ b/src/jomlib/jomprocess.h
@@ -131,6 +131,7 @@ private:
 
 private slots:
     void tryToRetrieveExitCode();
+    void retryFailedReads();
     void onProcessFinished();
 
 private:
-- 
2.43.0


From b22475093e6cb078bc2c163dd43278696fed1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:07 +0000
Subject: [PATCH 35/47] fix: do not consider targets without commands updated
 in dry runs

A target that exists and has no commands stays as it is, no matter whether it
is up-to-date. The dry run printed the commands of targets that depend on it
and that a real build leaves alone.
---
 src/jomlib/dependencygraph.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 5d66b0e..7a0df30 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -120,7 +120,11 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
             DescriptionBlock *dependent = target->makefile()->target(dependentName);
             if (dependent) {
                 ts = dependent->m_timeStamp;
-                if (!dependent->m_bFileExists && !dependent->m_commands.isEmpty()) {
+                if (dependent->m_bFileExists && dependent->m_commands.isEmpty()
+                    && !dependent->m_batchTarget) {
+                    // There's nothing that would update the dependent.
+                    ts.clear();
+                } else if (!dependent->m_bFileExists && !dependent->m_commands.isEmpty()) {
                     // Mimic insane nmake behaviour: If the dependent is a pseudotarget
                     // and has commands, then this target is out of date.
                     latestDependentTime = FileTime::latestTime();
-- 
2.43.0


From 3eb19e414598691601f0bc24c1d4324a7f3648f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:02 +0000
Subject: [PATCH 36/47] fix: go on reading a command's output after a failed
 asynchronous read

A read that completed with an error other than a broken pipe was treated
like the end of the output: nobody read the pipe any longer, and the
command waited for ever as soon as the pipe was full.
---
 src/jomlib/jomprocess.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 4014e9b..db8292b 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -626,12 +626,14 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
     if (errorCode == ERROR_SUCCESS) {
         if (startRead())
             return;
-        if (GetLastError() != ERROR_BROKEN_PIPE) {
-            // The process would wait for ever if nobody read its output.
-            readFailed.fetchAndStoreOrdered(1);
-            QMetaObject::invokeMethod(d->q, "retryFailedReads", Qt::QueuedConnection);
-            return;
-        }
+        errorCode = GetLastError();
+    }
+
+    if (errorCode != ERROR_BROKEN_PIPE) {
+        // The process would wait for ever if nobody read its output.
+        readFailed.fetchAndStoreOrdered(1);
+        QMetaObject::invokeMethod(d->q, "retryFailedReads", Qt::QueuedConnection);
+        return;
     }
 
     QMetaObject::invokeMethod(d->q, "tryToRetrieveExitCode", Qt::QueuedConnection);
-- 
2.43.0


From 1e5f5c47e01f78acb735ebb2cc15efbb6eeadb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:41 +0000
Subject: [PATCH 37/47] fix: expand wildcards into directories whose names
 start like the makefile's

The files matching C:\project2\*.c were looked for in the subdirectory 2 of
the current directory if the makefile is C:\project\Makefile.
---
 src/jomlib/parser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 27492f0..89009f9 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -359,6 +359,9 @@ static bool containsWildcard(const QString &str)
 static QStringList expandWildcards(const QString &dirPath, const QStringList &lst)
 {
     QStringList result;
+    QString dirPrefix = dirPath;
+    if (!dirPrefix.endsWith(QLatin1Char('/')))
+        dirPrefix += QLatin1Char('/');
     foreach (QString str, lst) {
         if (containsWildcard(str)) {
             QString path = dirPath;
@@ -375,11 +378,8 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
             QDirIterator dit(path, QStringList(str), QDir::AllEntries | QDir::NoDotAndDotDot);
             while (dit.hasNext()) {
                 QString filePath = dit.next();
-                if (filePath.startsWith(dirPath, Qt::CaseInsensitive)) {
-                    filePath.remove(0, dirPath.length());
-                    if (filePath.startsWith(QLatin1Char('/')))
-                       filePath.remove(0, 1);
-                }
+                if (filePath.startsWith(dirPrefix, Qt::CaseInsensitive))
+                    filePath.remove(0, dirPrefix.length());
                 result.append(QDir::toNativeSeparators(filePath));
             }
         } else {
-- 
2.43.0


From b21fd367965bb188e0ee7e5875fcaf5aaeb1af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:41 +0000
Subject: [PATCH 38/47] fix: find targets with absolute names by relative names
 of dependents everywhere

Only the dependency graph knew that the dependent foo may be the target
C:\project\foo. The order given with .SYNC, the check for cycles, the selection of
inference rules and dry runs did not.
---
 src/jomlib/dependencygraph.cpp |  8 ++------
 src/jomlib/makefile.cpp        | 13 +++++++++++++
 src/jomlib/makefile.h          |  2 ++
 src/jomlib/parser.cpp          |  8 ++++----
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 7a0df30..e3190f4 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -117,7 +117,7 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
         FileTime latestDependentTime;
         foreach (const QString& dependentName, target->m_dependents) {
             FileTime ts;
-            DescriptionBlock *dependent = target->makefile()->target(dependentName);
+            DescriptionBlock *dependent = target->makefile()->dependentTarget(dependentName);
             if (dependent) {
                 ts = dependent->m_timeStamp;
                 if (dependent->m_bFileExists && dependent->m_commands.isEmpty()
@@ -200,11 +200,7 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
 
     foreach (const QString& dependentName, node->target->m_dependents) {
         Makefile* const makefile = node->target->makefile();
-        DescriptionBlock* dependent = makefile->target(dependentName);
-        if (!dependent) {
-            // We don't know dependent "foo" but it may have been defined as "C:\MySourceDir\foo"
-            dependent = makefile->target(makefile->dirPath() + QDir::separator() + dependentName);
-        }
+        DescriptionBlock* dependent = makefile->dependentTarget(dependentName);
         if (!dependent) {
             if (!FastFileInfo(dependentName).exists()) {
                 QByteArray msg = "Error: dependent '";
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 8060b4e..f2785e3 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -449,6 +449,19 @@ const QString &Makefile::dirPath() const
     return m_dirPath;
 }
 
+/**
+ * Returns the target that is meant by the name of a dependent.
+ */
+DescriptionBlock *Makefile::dependentTarget(const QString &dependentName) const
+{
+    DescriptionBlock *dependent = target(dependentName);
+    if (!dependent) {
+        // We don't know dependent "foo" but it may have been defined as "C:\MySourceDir\foo"
+        dependent = target(dirPath() + QDir::separator() + dependentName);
+    }
+    return dependent;
+}
+
 void Makefile::dumpTarget(DescriptionBlock* db, uchar level) const
 {
     QString indent;
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 59f046f..cda2289 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -175,6 +175,8 @@ public:
         return result;
     }
 
+    DescriptionBlock *dependentTarget(const QString &dependentName) const;
+
     const QHash<QString, DescriptionBlock*>& targets() const
     {
         return m_targets;
diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 89009f9..9710d73 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -130,7 +130,7 @@ void Parser::apply(Preprocessor* pp,
     for (QHash<QString, QStringList>::const_iterator it = m_syncPoints.constBegin();
         it != m_syncPoints.constEnd(); ++it)
     {
-        DescriptionBlock *target = m_makefile->target(it.key());
+        DescriptionBlock *target = m_makefile->dependentTarget(it.key());
         if (!target)
             continue;
         target->m_dependents += it.value();
@@ -674,7 +674,7 @@ void Parser::checkForCycles(DescriptionBlock* target)
 #endif
     target->m_bVisitedByCycleCheck = true;
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = m_makefile->dependentTarget(target->m_dependents.at(i));
         checkForCycles(dep);
     }
     target->m_bVisitedByCycleCheck = false;
@@ -691,7 +691,7 @@ void Parser::resetCycleChecker(DescriptionBlock* target)
         return;
 
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = m_makefile->dependentTarget(target->m_dependents.at(i));
         resetCycleChecker(dep);
     }
 
@@ -739,7 +739,7 @@ void Parser::preselectInferenceRules(DescriptionBlock *target)
     }
 
     foreach (const QString &dependentName, target->m_dependents) {
-        DescriptionBlock *dependent = m_makefile->target(dependentName);
+        DescriptionBlock *dependent = m_makefile->dependentTarget(dependentName);
         if (dependent) {
             preselectInferenceRules(dependent);
         } else {
-- 
2.43.0


From 4eb9a11599b0d7bbb63e41759005deef3a1dad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:45 +0000
Subject: [PATCH 39/47] fix: mark the parents of a failed target only once

With /K the time needed grew exponentially with the number of paths
through the dependency graph.
---
 src/jomlib/dependencygraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index e3190f4..fac934b 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -96,6 +96,8 @@ bool DependencyGraph::isUnbuildable(DescriptionBlock *target) const
 void DependencyGraph::markParentsRecursivlyUnbuildable(Node *node)
 {
     foreach (Node *parent, node->parents) {
+        if (parent->state == Node::Unbuildable)
+            continue;   // All its parents are marked already.
         parent->state = Node::Unbuildable;
         markParentsRecursivlyUnbuildable(parent);
     }
-- 
2.43.0


From 60cbfd8e6b1b4ed8fcd9447608344b0840fd2b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 40/47] fix: assign the variable name in set "name=value"

The quotation marks became part of the name and the value.
---
 src/jomlib/commandexecutor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 20563ea..9b2dded 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -207,6 +207,13 @@ void CommandExecutor::executeCurrentCommandLine()
         } else if (commandLineStartsWithCommand(commandLine, QLatin1String("set"))) {
             QString variableAssignment = commandLine;
             variableAssignment = variableAssignment.remove(0, 4).trimmed();
+            if (variableAssignment.startsWith(QLatin1Char('"'))) {
+                // set "name=value"
+                const int endQuote = variableAssignment.lastIndexOf(QLatin1Char('"'));
+                if (endQuote > 0)
+                    variableAssignment.truncate(endQuote);
+                variableAssignment.remove(0, 1);
+            }
             int idx = variableAssignment.indexOf(QLatin1Char('='));
             if (idx >= 0) {
                 QString variableName = variableAssignment.left(idx);
-- 
2.43.0


From 3eb81c07cb4b55ab481e5b97c591292d6b850a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:02 +0000
Subject: [PATCH 41/47] fix: put the number of jobs that counts into MAKEFLAGS

If /J was given more than once, then $(MAKEFLAGS) contained the first
number. Sub-joms that were called with it created a job server of their
own.
---
 src/jomlib/options.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index 96d7db4..50aeda7 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -31,6 +31,7 @@
 #include <cstdlib>
 
 #include <QFile>
+#include <QRegExp>
 #include <QSet>
 #include <QThread>
 
@@ -308,8 +309,9 @@ bool Options::handleCommandLineOption(const QStringList &originalArguments, QStr
                         return false;
                     }
                     g_options.isMaxNumberOfJobsSet = true;
-                    if (makeflags.at(makeflags.count() - 1).toUpper() == QLatin1Char('J'))
-                        makeflags += nJobsStr;
+                    // Sub-joms must get the number that counts, even if the option was given before.
+                    makeflags.remove(QRegExp(QLatin1String("J\\d*"), Qt::CaseInsensitive));
+                    makeflags += ch + nJobsStr;
                     break;
                 }
             case 'K':
-- 
2.43.0


From 291376918e59d8416e7e50395923330b79ea1c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:02 +0000
Subject: [PATCH 42/47] fix: do not apply the default number of jobs to
 sub-joms

A number of jobs in JOMFLAGS or MAKEFLAGS that was overridden on the
command line made every sub-jom run as many jobs on its own.
---
 src/app/main.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index 557a300..ffbed18 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -38,6 +38,7 @@
 #include <QMutex>
 #include <QMutexLocker>
 #include <QProcess>
+#include <QRegExp>
 #include <QScopedPointer>
 #include <QTextCodec>
 
@@ -118,15 +119,19 @@ BOOL WINAPI ConsoleCtrlHandlerRoutine(DWORD dwCtrlType)
     return TRUE;
 }
 
-QStringList getCommandLineArguments()
+QStringList getCommandLineArguments(const Application &app)
 {
-    QStringList commandLineArguments = qApp->arguments().mid(1);
+    QStringList commandLineArguments = app.arguments().mid(1);
     QString makeFlags = qGetEnvironmentVariable(L"JOMFLAGS");
     if (makeFlags.isEmpty())
         makeFlags = qGetEnvironmentVariable(L"MAKEFLAGS");
     if (!makeFlags.isEmpty()) {
         if (makeFlags.startsWith(QLatin1Char('-')))
             makeFlags.remove(0, 1);
+        if (app.isSubJOM()) {
+            // The default number of jobs doesn't apply to sub-joms. They inherit the number of jobs.
+            makeFlags.remove(QRegExp(QLatin1String("J\\d+"), Qt::CaseInsensitive));
+        }
         if (!makeFlags.isEmpty())
             commandLineArguments.prepend(QLatin1Char('/') + makeFlags);
     }
@@ -179,7 +184,7 @@ int main(int argc, char* argv[])
         MakefileFactory mf;
         Options* options = 0;
         mf.setEnvironment(QProcess::systemEnvironment());
-        if (!mf.apply(getCommandLineArguments(), &options)) {
+        if (!mf.apply(getCommandLineArguments(app), &options)) {
             switch (mf.errorType()) {
             case MakefileFactory::CommandLineError:
                 showUsage();
-- 
2.43.0


From 603bb84ac4360e8a1dcca45c487a3227900a9065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:02 +0000
Subject: [PATCH 43/47] fix: use all jobs in sub-joms

A sub-jom never ran more jobs than the machine has cores, even if /J
allows more.
---
 src/app/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index ffbed18..3d1c5b7 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -158,6 +158,8 @@ static bool initJobServer(const Application &app, ProcessEnvironment *environmen
                     "New jobserver created.\n",
                     inheritedMaxNumberOfJobs, g_options.maxNumberOfJobs);
             mustCreateJobServer = true;
+        } else {
+            g_options.maxNumberOfJobs = inheritedMaxNumberOfJobs;
         }
     } else {
         mustCreateJobServer = true;
-- 
2.43.0


From eadcb14365db832b62f81c5af915338c405f0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:55 +0000
Subject: [PATCH 44/47] fix: write inline files in the encoding their makefile
 was read in

---
 src/jomlib/commandexecutor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 9b2dded..ef9dfcf 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -299,12 +299,13 @@ void CommandExecutor::createTempFiles()
             } else
                 fileName = inlineFile->m_filename;
 
-            const QByteArray content = inlineFile->m_content.toLocal8Bit();
+            // 8-bit makefiles are read as Latin-1. Write the bytes back as they were read.
+            const QByteArray content = inlineFile->m_content.toLatin1();
             if (m_pTarget->makefile()->options()->dumpInlineFiles) {
                 writeToStandardOutput("---");
                 writeToStandardOutput(fileName.toLocal8Bit());
                 writeToStandardOutput("---\n");
-                writeToStandardOutput(content);
+                writeToStandardOutput(inlineFile->m_content.toLocal8Bit());
                 writeToStandardOutput("---end of inline file---\n");
             }
 
-- 
2.43.0


From 353b47b44f0c27aceadf2ffdbfdaa7cb7b76694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:55 +0000
Subject: [PATCH 45/47] fix: order dependents behind every .SYNC after all
 dependents before it

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 9710d73..994194c 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -432,7 +432,7 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
                 dependents.removeAt(i);
                 if (dependents.count() == i)
                     break;
-                syncDeps = dependents.mid(k, i - k);
+                syncDeps += dependents.mid(k, i - k);
                 k = i;
             } else {
                 m_syncPoints[dependents.at(i)] += syncDeps;
-- 
2.43.0


From 3f31cb1868cb1b4fe7064508b05b894984e39f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:29 +0000
Subject: [PATCH 46/47] fix: accept spaces and tabs between command modifiers

---
 src/jomlib/makefile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index f2785e3..bef951f 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -105,6 +105,9 @@ void Command::evaluateModifiers()
         } else if (firstChar == QLatin1Char('!')) {
             m_commandLine.remove(0, 1);
             m_singleExecution = true;
+        } else if (firstChar == QLatin1Char(' ') || firstChar == QLatin1Char('\t')) {
+            // Command modifiers may be separated by spaces or tabs.
+            m_commandLine.remove(0, 1);
         } else {
             break;
         }
-- 
2.43.0


From 69da4c274bd65e134739f403e2e8c663357c4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:46 +0000
Subject: [PATCH 47/47] fix: expand wildcards in dependents in the current
 directory, not in the makefile's

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 994194c..82e0d42 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -420,7 +420,7 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
 
     const QStringList targets = splitTargetNames(target);
     QStringList dependents = splitTargetNames(value);
-    dependents = expandWildcards(m_makefile->dirPath(), dependents);
+    dependents = expandWildcards(QDir::currentPath(), dependents);
 
     // handle the special .SYNC dependents
     auto removeSyncPoints = [this](QStringList &dependents)
-- 
2.43.0

