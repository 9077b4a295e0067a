J='jomprocess.cpp'; I='iocompletionport.cpp'; C='jobclient.cpp'
W="""    d->stdoutChannel.outputBufferLock.lock();
    d->stdoutChannel.buffers.append(TimeStampedBuffer(runtime()->elapsed(), output));
    d->stdoutChannel.outputBufferLock.unlock();
"""
N="""        d->bufferedOutputModeSwitchMutex.lock();

        if (d->q"""
NU="""        d->bufferedOutputModeSwitchMutex.unlock();
    }

    if (errorCode"""
SB="""    d->bufferedOutputModeSwitchMutex.lock();

    m_bufferedOutput = b;
    if (!m_bufferedOutput)
        printBufferedOutput();

    d->bufferedOutputModeSwitchMutex.unlock();
"""
RUN="""        mutex.lock();
        if (observers.contains(observer))
            observer->completionPortNotified(dwBytesRead, errorCode);
        mutex.unlock();
"""
FIN="""    IoCompletionPort::instance()->unregisterObserver(&d->stdoutChannel);
    IoCompletionPort::instance()->unregisterObserver(&d->stderrChannel);
    safelyCloseHandle(d->stdoutPipe.hRead);
    safelyCloseHandle(d->stderrPipe.hRead);
"""
DT="""    IoCompletionPort::instance()->unregisterObserver(&d->stdoutChannel);
    IoCompletionPort::instance()->unregisterObserver(&d->stderrChannel);

    if (m_state == Running)"""
INV='QMetaObject::invokeMethod(d->q, "tryToRetrieveExitCode", Qt::QueuedConnection);'
ORIGPRINT="        channel->outputBufferLock.lock();\n        const QByteArray &ba"
MUTANTS=[
 ('wbuf-nolock',['C20'],[(J,W,"    d->stdoutChannel.buffers.append(TimeStampedBuffer(runtime()->elapsed(), output));\n")]),
 ('wbuf-otherlock',['C20'],[(J,W,W.replace("stdoutChannel.outputBufferLock","stderrChannel.outputBufferLock"))]),
 ('wbuf-early',['C20'],[(J,W,"    d->stdoutChannel.outputBufferLock.lock();\n    d->stdoutChannel.outputBufferLock.unlock();\n    d->stdoutChannel.buffers.append(TimeStampedBuffer(runtime()->elapsed(), output));\n")]),
 ('wbuf-nounlock',['C20'],[(J,W,W.replace("    d->stdoutChannel.outputBufferLock.unlock();\n","    if (output.size() < 1000)\n        d->stdoutChannel.outputBufferLock.unlock();\n"))]),
 ('notify-noswitch',['C20'],[(J,N,"        if (d->q"),(J,NU,"    }\n\n    if (errorCode")]),
 ('switch-late',['C20'],[(J,SB,"    m_bufferedOutput = b;\n"+SB.replace("    m_bufferedOutput = b;\n",""))]),
 ('switch-nolock',['C20'],[(J,SB,"    m_bufferedOutput = b;\n    if (!m_bufferedOutput)\n        printBufferedOutput();\n")]),
 ('switch-return',['C20'],[(J,SB,SB.replace("    if (!m_bufferedOutput)","    if (m_state != Running)\n        return;\n    if (!m_bufferedOutput)"))]),
 ('switch-print-after',['C20'],[(J,SB,SB.replace("    if (!m_bufferedOutput)\n        printBufferedOutput();\n\n    d->bufferedOutputModeSwitchMutex.unlock();\n","    d->bufferedOutputModeSwitchMutex.unlock();\n    if (!m_bufferedOutput)\n        printBufferedOutput();\n"))]),
 ('run-unlock-first',['C20'],[(I,RUN,RUN.replace("        if (observers.contains(observer))\n            ","        const bool known = observers.contains(observer);\n        mutex.unlock();\n        if (known)\n            ").replace("errorCode);\n        mutex.unlock();","errorCode);"))]),
 ('run-nocheck',['C20'],[(I,RUN,RUN.replace("        if (observers.contains(observer))\n            ","        "))]),
 ('reg-nolock',['C20'],[(I,"    mutex.lock();\n    observers.insert(observer);\n    mutex.unlock();\n","    observers.insert(observer);\n")]),
 ('unreg-none',['C20'],[(I,"    observers.remove(observer);\n","    if (QThread::isRunning())\n        observers.remove(observer);\n")]),
 ('fin-one',['C20'],[(J,FIN,FIN.replace("    IoCompletionPort::instance()->unregisterObserver(&d->stderrChannel);\n",""))]),
 ('fin-twice-same',['C20'],[(J,FIN,FIN.replace("unregisterObserver(&d->stderrChannel)","unregisterObserver(&d->stdoutChannel)"))]),
 ('fin-close-first',['C20'],[(J,FIN,"    safelyCloseHandle(d->stdoutPipe.hRead);\n"+FIN.replace("    safelyCloseHandle(d->stdoutPipe.hRead);\n",""))]),
 ('dt-noreg',['C20'],[(J,DT,"    if (m_state == Running) {\n"+DT.replace("\n\n    if (m_state == Running)","\n    }\n    if (m_state == Running)"))]),
 ('inv-direct',['C20'],[(J,INV,INV.replace("Qt::QueuedConnection","Qt::DirectConnection"))]),
 ('inv-blocking',['C20'],[(J,INV,INV.replace("Qt::QueuedConnection","Qt::BlockingQueuedConnection"))]),
 ('inv-auto-call',['C20'],[(J,INV,"d->q->isRunning() ? (void) "+INV[:-1]+" : (void)0;")]),
 ('deadlock-order',['C20'],[(J,"    QMutexLocker locker(consoleMutex());\n    while","    QMutexLocker locker(consoleMutex());\n    QMutexLocker locker2(&d->bufferedOutputModeSwitchMutex);\n    while"),(J,SB,"    {\n    QMutexLocker l(&d->bufferedOutputModeSwitchMutex);\n    m_bufferedOutput = b;\n    }\n    if (!b)\n        printBufferedOutput();\n")]),
 ('self-lock',['C20'],[(J,"    QMutexLocker locker(consoleMutex());\n    while","    QMutexLocker locker(consoleMutex());\n    QMutexLocker locker2(&d->bufferedOutputModeSwitchMutex);\n    while")]),
 ('read-after-arm',['C20'],[(J,"        if (dwError != ERROR_IO_PENDING)\n            return false;\n    }\n","        if (dwError != ERROR_IO_PENDING)\n            return false;\n    }\n    intermediateOutputBuffer[0] = 0;\n")]),
 ('rearm-first',['C20'],[(J,"    if (numberOfBytes)  {\n        d->buf","    if (errorCode == ERROR_SUCCESS && numberOfBytes >= 4096 && !d->q->isBufferedOutputSet())\n        startRead();\n    if (numberOfBytes)  {\n        d->buf")]),
 ('clear-later',['C20'],[(J,"    printBufferedOutput();\n    m_state = NotRunning;","    printBufferedOutput();\n    d->stdoutChannel.intermediateOutputBuffer.clear();\n    m_state = NotRunning;"),(J,"    d->deathNotifier.setHandle(pi.hProcess);","    d->stdoutChannel.intermediateOutputBuffer.reserve(65536);\n    d->deathNotifier.setHandle(pi.hProcess);")]),
 ('shared-static',['C20'],[(J,"    ProcessPrivate *d;\n    Pipe *pipe;","    ProcessPrivate *d;\n    int bytes;\n    Pipe *pipe;"),(J,"        stderrChannel.d = this;","        stderrChannel.d = this;\n        stdoutChannel.bytes = stderrChannel.bytes = 0;"),(J,"    if (numberOfBytes)  {","    bytes += numberOfBytes;\n    if (numberOfBytes)  {"),(J,"void Process::setWorkingDirectory(const QString &path)\n{","void Process::setWorkingDirectory(const QString &path)\n{\n    d->stdoutChannel.bytes = 0;")]),
 ('helper-direct',['C20'],[(C,"m_acquireHelper, &JobClientAcquireHelper::acquire);","m_acquireHelper, &JobClientAcquireHelper::acquire, Qt::DirectConnection);")]),
 ('closepipes-nounreg',['C20'],[(J,"    IoCompletionPort::instance()->unregisterObserver(&stdoutChannel);\n    IoCompletionPort::instance()->unregisterObserver(&stderrChannel);\n    Pipe","    Pipe")]),
 # refactorings
 ('ok-locker',['C20'],[(J,W,"    QMutexLocker l(&d->stdoutChannel.outputBufferLock);\n    d->stdoutChannel.buffers.append(TimeStampedBuffer(runtime()->elapsed(), output));\n")]),
 ('ok-helper',['C20'],[(J,"void Process::writeToStdOutBuffer","static void appendTo(OutputChannel &c, const QByteArray &ba)\n{\n    const TimeStampedBuffer b(runtime()->elapsed(), ba);\n    c.outputBufferLock.lock();\n    c.buffers.append(b);\n    c.outputBufferLock.unlock();\n}\n\nvoid Process::writeToStdOutBuffer"),(J,W,"    appendTo(d->stdoutChannel, output);\n")]),
 ('ok-alias',['C20'],[(J,W,"    OutputChannel *const c = &d->stdoutChannel;\n    QList<TimeStampedBuffer> &l = c->buffers;\n    c->outputBufferLock.lock();\n    l.append(TimeStampedBuffer(runtime()->elapsed(), output));\n    c->outputBufferLock.unlock();\n")]),
 ('ok-runlocker',['C20'],[(I,RUN,"        QMutexLocker locker(&mutex);\n        if (!observers.contains(observer))\n            continue;\n        observer->completionPortNotified(dwBytesRead, errorCode);\n")]),
 ('ok-runcontinue',['C20'],[(I,RUN,"        mutex.lock();\n        const bool known = observers.contains(observer);\n        if (known)\n            observer->completionPortNotified(dwBytesRead, errorCode);\n        mutex.unlock();\n")]),
 ('ok-switchlocker',['C20'],[(J,SB,"    QMutexLocker l(&d->bufferedOutputModeSwitchMutex);\n    m_bufferedOutput = b;\n    if (!b)\n        printBufferedOutput();\n")]),
 ('ok-finhelper',['C20'],[(J,"void Process::onProcessFinished()\n{","static void stopNotify(ProcessPrivate *p)\n{\n    IoCompletionPort *port = IoCompletionPort::instance();\n    port->unregisterObserver(&p->stdoutChannel);\n    port->unregisterObserver(&p->stderrChannel);\n}\n\nvoid Process::onProcessFinished()\n{"),(J,FIN,"    stopNotify(d);\n    safelyCloseHandle(d->stdoutPipe.hRead);\n    safelyCloseHandle(d->stderrPipe.hRead);\n")]),
 ('ok-notifylocker',['C20'],[(J,N,"        QMutexLocker l(&d->bufferedOutputModeSwitchMutex);\n        if (d->q"),(J,NU,"    }\n\n    if (errorCode")]),
 ('ok-printlock',['C20'],[(J,ORIGPRINT,"        QMutexLocker l2(&channel->outputBufferLock);\n        const QByteArray &ba"),(J,"        channel->buffers.removeFirst();\n        channel->outputBufferLock.unlock();\n","        channel->buffers.removeFirst();\n")]),
]
