J='jomprocess.cpp'; T='targetexecutor.cpp'; C='commandexecutor.cpp'
FREE="        executor->setBufferedOutput(true);\n"
BODY="""        executor->setBufferedOutput(true);
        bool found = false;
        foreach (CommandExecutor *cmdex, m_processes) {
            if (cmdex->isActive()) {
                cmdex->setBufferedOutput(false);
                found = true;
                break;
            }
        }
        if (!found)
            m_availableProcesses.first()->setBufferedOutput(false);
"""
PB="""        OutputChannel *const channel = channels[i];
        channel->outputBufferLock.lock();
        const QByteArray &ba = channel->buffers.first().buffer;
        fwrite_binary(channel->stream, ba.data(), ba.count());
        channel->buffers.removeFirst();
        channel->outputBufferLock.unlock();
"""
SETB="""    m_bufferedOutput = b;
    if (!m_bufferedOutput)
        printBufferedOutput();
"""
CHUNK="""        for (;;) {
            size_t k = qMin(chunkSize, count);
            fwrite(str, sizeof(char), k, stream);
            fflush(stream);
            if (k >= count)
                break;
            str += k;
            count -= k;
        }
"""
END="""    IoCompletionPort::instance()->unregisterObserver(&d->stdoutChannel);
    IoCompletionPort::instance()->unregisterObserver(&d->stderrChannel);
    safelyCloseHandle(d->stdoutPipe.hRead);
    safelyCloseHandle(d->stderrPipe.hRead);
    safelyCloseHandle(d->hProcess);
    safelyCloseHandle(d->hProcessThread);
    printBufferedOutput();
"""
MUTANTS=[
 ('one-nofree',['C19'],[(T,FREE,"")]),
 ('one-notake',['C19'],[(T,"        if (!found)\n            m_availableProcesses.first()->setBufferedOutput(false);\n","")]),
 ('one-nobreak',['C19'],[(T,"                found = true;\n                break;","                found = true;")]),
 ('one-nofound',['C19'],[(T,"                found = true;\n                break;","                break;")]),
 ('one-always',['C19'],[(T,"    if (!executor->isBufferedOutputSet()) {\n        executor->setBufferedOutput(true);","    {\n        executor->setBufferedOutput(true);")]),
 ('one-inv',['C19'],[(T,"    if (!executor->isBufferedOutputSet()) {","    if (executor->isBufferedOutputSet()) {")]),
 ('one-ctor',['C19'],[(T,"    m_availableProcesses.first()->setBufferedOutput(false);\n}","}")]),
 ('one-ctor2',['C19'],[(T,"        m_processes.append(executor);","        m_processes.append(executor);\n        executor->setBufferedOutput(false);")]),
 ('one-proc',['C19'],[(J,"      m_bufferedOutput(true)","      m_bufferedOutput(false)")]),
 ('one-start',['C19'],[(T,"    m_availableProcesses.append(executor);","    m_availableProcesses.append(executor);\n    if (m_availableProcesses.count() == m_processes.count())\n        executor->setBufferedOutput(false);")]),
 ('echo-direct2',['C19'],[(C,"        output.append('\\n');\n        writeToStandardOutput(output);","        output.append('\\n');\n        writeToChannel(output, stdout);")]),
 ('err-direct',['C19'],[(C,"        writeToStandardError(msg.arg(args).toLocal8Bit());","        fputs(msg.arg(args).toLocal8Bit(), stderr);")]),
 ('route-inv',['C19'],[(C,"    if (m_process.isBufferedOutputSet())\n        m_process.writeToStdErrBuffer","    if (!m_process.isBufferedOutputSet())\n        m_process.writeToStdErrBuffer")]),
 ('route-both',['C19'],[(C,"        m_process.writeToStdOutBuffer(output);\n    else\n        writeTo","        m_process.writeToStdOutBuffer(output);\n    writeTo")]),
 ('route-cross',['C19'],[(C,"        m_process.writeToStdErrBuffer(output);","        m_process.writeToStdOutBuffer(output);")]),
 ('route-cross2',['C19'],[(C,"        writeToChannel(output, stderr);","        writeToChannel(output, stdout);")]),
 ('route-empty',['C19'],[(C,"void CommandExecutor::writeToStandardOutput(const QByteArray& output)\n{\n","void CommandExecutor::writeToStandardOutput(const QByteArray& output)\n{\n    if (output.count() < 2)\n        return;\n")]),
 ('buf-cross',['C19'],[(J,"    d->stderrChannel.buffers.append(TimeStampedBuffer(runtime","    d->stdoutChannel.buffers.append(TimeStampedBuffer(runtime")]),
 ('buf-prep',['C19'],[(J,"    d->stderrChannel.buffers.append(TimeStampedBuffer(runtime","    d->stderrChannel.buffers.prepend(TimeStampedBuffer(runtime")]),
 ('buf-all',['C19'],[(J,"            QByteArray data(intermediateOutputBuffer.data(), numberOfBytes);","            QByteArray data(intermediateOutputBuffer.data());")]),
 ('buf-raw',['C19'],[(J,"            QByteArray data(intermediateOutputBuffer.data(), numberOfBytes);","            const QByteArray data = QByteArray::fromRawData(intermediateOutputBuffer.constData(), numberOfBytes);")]),
 ('buf-share',['C19'],[(J,"            QByteArray data(intermediateOutputBuffer.data(), numberOfBytes);","            QByteArray data = intermediateOutputBuffer;")]),
 ('buf-size',['C19'],[(J,"            fwrite_binary(stream, intermediateOutputBuffer.data(), numberOfBytes);","            fwrite_binary(stream, intermediateOutputBuffer.data(), intermediateOutputBuffer.size());")]),
 ('buf-late',['C19'],[(J,"    if (numberOfBytes)  {","    if (errorCode == ERROR_SUCCESS && !startRead())\n        errorCode = 1;\n    if (numberOfBytes)  {"),(J,"    if (errorCode == ERROR_SUCCESS)\n        if (startRead())\n            return;","    if (errorCode == ERROR_SUCCESS)\n        return;")]),
 ('buf-err',['C19'],[(J,"    if (numberOfBytes)  {","    if (numberOfBytes && errorCode == ERROR_SUCCESS)  {")]),
 ('mode-nolock',['C19'],[(J,"        d->bufferedOutputModeSwitchMutex.lock();\n\n        if (d->q->isBufferedOutputSet()) {","        const bool buffered = d->q->isBufferedOutputSet();\n        d->bufferedOutputModeSwitchMutex.lock();\n\n        if (buffered) {")]),
 ('mode-early',['C19'],[(J,"        if (d->q->isBufferedOutputSet()) {\n","        const bool buffered = d->q->isBufferedOutputSet();\n        d->bufferedOutputModeSwitchMutex.unlock();\n        if (buffered) {\n"),(J,"            fwrite_binary(stream, intermediateOutputBuffer.data(), numberOfBytes);\n        }\n\n        d->bufferedOutputModeSwitchMutex.unlock();","            fwrite_binary(stream, intermediateOutputBuffer.data(), numberOfBytes);\n        }\n")]),
 ('mode-inv',['C19'],[(J,"        if (d->q->isBufferedOutputSet()) {","        if (!d->q->isBufferedOutputSet()) {")]),
 ('mode-noprint',['C19'],[(J,SETB,"    m_bufferedOutput = b;\n")]),
 ('mode-printinv',['C19'],[(J,SETB,SETB.replace("if (!m_","if (m_"))]),
 ('mode-torn',['C19'],[(J,SETB+"\n    d->bufferedOutputModeSwitchMutex.unlock();","    m_bufferedOutput = b;\n    d->bufferedOutputModeSwitchMutex.unlock();\n    if (!b)\n        printBufferedOutput();\n")]),
 ('mode-nolock2',['C19'],[(J,"    d->bufferedOutputModeSwitchMutex.lock();\n\n    m_buff","    m_buff"),(J,"        printBufferedOutput();\n\n    d->bufferedOutputModeSwitchMutex.unlock();","        printBufferedOutput();\n")]),
 ('mode-set',['C19'],[(J,"    m_bufferedOutput = b;","    m_bufferedOutput = !b;")]),
 ('flush-no',['C19'],[(J,END,END.replace("    printBufferedOutput();\n",""))]),
 ('flush-early',['C19'],[(J,END,"    printBufferedOutput();\n"+END.replace("    printBufferedOutput();\n",""))]),
 ('flush-late',['C19'],[(J,END,END.replace("    printBufferedOutput();\n","")),(J,"    emit finished(m_exitCode, exitStatus);\n","    emit finished(m_exitCode, exitStatus);\n    printBufferedOutput();\n")]),
 ('flush-dtor',['C19'],[(J,"    printBufferedOutput();\n    delete d;","    delete d;")]),
 ('flush-err',['C19'],[(J,END,END.replace("    printBufferedOutput();\n","    if (d->exitCode)\n        printBufferedOutput();\n"))]),
 ('print-one',['C19'],[(J,"    while (!d->stdoutChannel.buffers.isEmpty()\n        || !d","    while (!d->stdoutChannel.buffers.isEmpty()\n        && !d")]),
 ('print-out',['C19'],[(J,"    while (!d->stdoutChannel.buffers.isEmpty()\n        || !d->stderrChannel.buffers.isEmpty())","    while (!d->stdoutChannel.buffers.isEmpty())")]),
 ('print-order',['C19'],[(J,"first().timestamp > channels[1]","first().timestamp < channels[1]")]),
 ('print-order2',['C19'],[(J,"                && channels[0]->buffers.first().timestamp > channels[1]->buffers.first().timestamp))","                && channels[0]->buffers.last().timestamp > channels[1]->buffers.last().timestamp))")]),
 ('print-order3',['C19'],[(J,"        if (channels[0]->buffers.isEmpty()\n            || (!channels[1]->buffers.isEmpty()\n                && channels[0]->buffers.first().timestamp > channels[1]->buffers.first().timestamp))","        if (channels[0]->buffers.isEmpty())")]),
 ('print-last',['C19'],[(J,PB,PB.replace("removeFirst","removeLast"))]),
 ('print-stream',['C19'],[(J,PB,PB.replace("fwrite_binary(channel->stream","fwrite_binary(stdout"))]),
 ('print-swap',['C19'],[(J,PB,PB.replace("fwrite_binary(channel->stream","fwrite_binary(channels[0]->stream"))]),
 ('print-clear',['C19'],[(J,PB,PB.replace("removeFirst","clear"))]),
 ('print-norem',['C19'],[(J,PB,PB.replace("        fwrite_binary(channel->stream, ba.data(), ba.count());\n","        if (!ba.startsWith('#'))\n            fwrite_binary(channel->stream, ba.data(), ba.count());\n"))]),
 ('print-len',['C19'],[(J,PB,PB.replace("ba.count()","ba.count() - 1"))]),
 ('print-len2',['C19'],[(J,PB,PB.replace("ba.count()","qstrlen(ba.data())"))]),
 ('print-nolock',['C19'],[(J,"{\n    QMutexLocker locker(consoleMutex());\n    while","{\n    while")]),
 ('print-inner',['C19'],[(J,"{\n    QMutexLocker locker(consoleMutex());\n    while","{\n    while"),(J,PB,PB.replace("        channel->outputBufferLock.lock();\n","        channel->outputBufferLock.lock();\n        QMutexLocker locker(consoleMutex());\n"))]),
 ('print-dirlock',['C19'],[(J,"            QMutexLocker locker(consoleMutex());\n            fwrite","            fwrite")]),
 ('chunk-noadv',['C19'],[(J,CHUNK,CHUNK.replace("            str += k;\n",""))]),
 ('chunk-nored',['C19'],[(J,CHUNK,CHUNK.replace("            count -= k;\n",""))]),
 ('chunk-adv',['C19'],[(J,CHUNK,CHUNK.replace("str += k","str += chunkSize - 1"))]),
 ('chunk-less',['C19'],[(J,CHUNK,CHUNK.replace("k >= count","k <= count"))]),
 ('chunk-more',['C19'],[(J,CHUNK,CHUNK.replace("qMin(chunkSize, count)","chunkSize"))]),
 ('chunk-half',['C19'],[(J,"    if (fwrite(str, sizeof(char), count, stream)) {","    if (fwrite(str, sizeof(char), count / 2, stream)) {")]),
 # refactorings
 ('ok-while',['C19'],[(J,CHUNK,"""        while (count > 0) {
            const size_t k = qMin(chunkSize, count);
            fwrite(str, 1, k, stream);
            fflush(stream);
            str += k;
            count -= k;
        }
""")]),
 ('ok-chunkif',['C19'],[(J,CHUNK,"""        while (count > chunkSize) {
            fwrite(str, 1, chunkSize, stream);
            fflush(stream);
            str += chunkSize;
            count -= chunkSize;
        }
        fwrite(str, 1, count, stream);
        fflush(stream);
""")]),
 ('ok-take',['C19'],[(J,PB,"""        OutputChannel *const channel = channels[i];
        channel->outputBufferLock.lock();
        const TimeStampedBuffer tsb = channel->buffers.takeFirst();
        fwrite_binary(channel->stream, tsb.buffer.constData(), tsb.buffer.size());
        channel->outputBufferLock.unlock();
""")]),
 ('ok-sel',['C19'],[(J,"""        OutputChannel *channels[2] = { &d->stdoutChannel, &d->stderrChannel };

        size_t i = 0;
        if (channels[0]->buffers.isEmpty()
            || (!channels[1]->buffers.isEmpty()
                && channels[0]->buffers.first().timestamp > channels[1]->buffers.first().timestamp))
        {
            i = 1;
        }

        OutputChannel *const channel = channels[i];
""","""        OutputChannel *channel = d->oldest();
"""),(J,"void Process::printBufferedOutput()\n","""OutputChannel *ProcessPrivate::oldest()
{
    if (stdoutChannel.buffers.isEmpty())
        return &stderrChannel;
    if (stderrChannel.buffers.isEmpty())
        return &stdoutChannel;
    if (stdoutChannel.buffers.first().timestamp <= stderrChannel.buffers.first().timestamp)
        return &stdoutChannel;
    return &stderrChannel;
}

void Process::printBufferedOutput()
"""),(J,"    void closePipes();\n","    void closePipes();\n    OutputChannel *oldest();\n")]),
 ('ok-forever',['C19'],[(J,"    while (!d->stdoutChannel.buffers.isEmpty()\n        || !d->stderrChannel.buffers.isEmpty())\n    {\n","    forever {\n        if (d->stdoutChannel.buffers.isEmpty() && d->stderrChannel.buffers.isEmpty())\n            break;\n")]),
 ('ok-setb',['C19'],[(J,SETB,"    if (!b)\n        printBufferedOutput();\n    m_bufferedOutput = b;\n")]),
 ('ok-locker',['C19'],[(J,"    d->bufferedOutputModeSwitchMutex.lock();\n\n    m_buff","    QMutexLocker modeLocker(&d->bufferedOutputModeSwitchMutex);\n    m_buff"),(J,"        printBufferedOutput();\n\n    d->bufferedOutputModeSwitchMutex.unlock();","        printBufferedOutput();\n")]),
 ('ok-move',['C19'],[(T,BODY,"        moveDirectOutput(executor);\n"),('targetexecutor.h',"    void removeTempFiles();","    void removeTempFiles();\n    void moveDirectOutput(CommandExecutor *executor);"),(T,"int TargetExecutor::numberOfRunningProcesses","void TargetExecutor::moveDirectOutput(CommandExecutor *executor)\n{\n"+BODY+"}\n\nint TargetExecutor::numberOfRunningProcesses")]),
 ('ok-next',['C19'],[(T,BODY,"""        executor->setBufferedOutput(true);
        CommandExecutor *next = m_availableProcesses.first();
        foreach (CommandExecutor *cmdex, m_processes) {
            if (cmdex->isActive()) {
                next = cmdex;
                break;
            }
        }
        next->setBufferedOutput(false);
""")]),
 ('ok-chan',['C19'],[(C,"""    if (m_process.isBufferedOutputSet())
        m_process.writeToStdOutBuffer(output);
    else
        writeToChannel(output, stdout);""","""    if (!m_process.isBufferedOutputSet()) {
        fputs(output.constData(), stdout);
        fflush(stdout);
        return;
    }
    m_process.writeToStdOutBuffer(output);""")]),
 ('ok-append',['C19'],[(J,"            QByteArray data(intermediateOutputBuffer.data(), numberOfBytes);\n            buffers.append(TimeStampedBuffer(runtime()->elapsed(), data));","            buffers << TimeStampedBuffer(runtime()->elapsed(), intermediateOutputBuffer.left(numberOfBytes));")]),
]
