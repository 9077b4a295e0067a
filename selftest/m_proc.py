J='jomprocess.cpp'; P='iocompletionport.cpp'
FAILCP="""    if (!bResult) {
        d->closePipes();
"""
CLOSE4="""    safelyCloseHandle(d->stdinPipe.hRead);
    safelyCloseHandle(d->stdinPipe.hWrite);
    safelyCloseHandle(d->stdoutPipe.hWrite);
    safelyCloseHandle(d->stderrPipe.hWrite);
"""
END4="""    safelyCloseHandle(d->stdoutPipe.hRead);
    safelyCloseHandle(d->stderrPipe.hRead);
    safelyCloseHandle(d->hProcess);
    safelyCloseHandle(d->hProcessThread);
"""
MUTANTS = [
 ('leak-failcp',['C21'],[(J,FAILCP,FAILCP.replace("        d->closePipes();\n",""))]),
 ('leak-failread',['C21'],[(J,"    if (!d->startRead()) {\n        d->closePipes();\n","    if (!d->startRead()) {\n")]),
 ('close-late',['C21'],[(J,FAILCP,FAILCP.replace("        d->closePipes();\n","")),(J,"        emit error(FailedToStart);\n        return;\n    }\n\n    // Close","        emit error(FailedToStart);\n        d->closePipes();\n        return;\n    }\n\n    // Close")]),
 ('leak-wr',['C21'],[(J,CLOSE4,CLOSE4.replace("    safelyCloseHandle(d->stdoutPipe.hWrite);\n",""))]),
 ('leak-in',['C21'],[(J,CLOSE4,CLOSE4.replace("    safelyCloseHandle(d->stdinPipe.hWrite);\n",""))]),
 ('noreset',['C21'],[(J,CLOSE4,CLOSE4.replace("    safelyCloseHandle(d->stdinPipe.hRead);\n","    CloseHandle(d->stdinPipe.hRead);\n"))]),
 ('noreset2',['C21'],[(J,"        CloseHandle(h);\n        h = INVALID_HANDLE_VALUE;","        CloseHandle(h);")]),
 ('byvalue',['C21'],[(J,"static void safelyCloseHandle(HANDLE &h)","static void safelyCloseHandle(HANDLE h)")]),
 ('leak-read',['C21'],[(J,"        qErrnoWarning(\"Process: CreateFile failed.\");\n        CloseHandle(hRead);\n        return false;","        qErrnoWarning(\"Process: CreateFile failed.\");\n        return false;"),(J,'        qFatal("Cannot setup pipe for stderr.");','        { m_state = NotRunning; emit error(FailedToStart); return; }')]),
 ('closeread2',['C21'],[(J,"    ConnectNamedPipe(hRead, NULL);\n","    if (!ConnectNamedPipe(hRead, NULL) && GetLastError() != 535) {\n        CloseHandle(hRead);\n        CloseHandle(hRead);\n        CloseHandle(hWrite);\n        return false;\n    }\n")]),
 ('loop2',['C21'],[(J,"i < sizeof(pipes) / sizeof(pipes[0])","i + 1 < sizeof(pipes) / sizeof(pipes[0])")]),
 ('loop3',['C21'],[(J,"&stdinPipe, &stdoutPipe, &stderrPipe }","&stdinPipe, &stdoutPipe, &stdoutPipe }")]),
 ('loop4',['C21'],[(J,"        safelyCloseHandle(pipes[i]->hRead);\n","")]),
 ('end1',['C21'],[(J,END4,END4.replace("    safelyCloseHandle(d->hProcess);\n",""))]),
 ('end2',['C21'],[(J,END4,END4.replace("    safelyCloseHandle(d->hProcessThread);\n",""))]),
 ('end3',['C21'],[(J,END4,END4.replace("    safelyCloseHandle(d->stderrPipe.hRead);\n",""))]),
 ('end4',['C21'],[(J,END4,END4.replace("safelyCloseHandle(d->hProcess);","CloseHandle(d->hProcess);"))]),
 ('end5',['C21'],[(J,END4,END4.replace("    safelyCloseHandle(d->stderrPipe.hRead);\n","    if (d->exitCode == 0)\n        safelyCloseHandle(d->stderrPipe.hRead);\n"))]),
 ('notif',['C21'],[(J,"    d->deathNotifier.setEnabled(false);\n","")]),
 ('notif2',['C21'],[(J,"    d->deathNotifier.setEnabled(false);\n",""),(J,"    printBufferedOutput();\n    m_state = Not","    d->deathNotifier.setEnabled(false);\n    printBufferedOutput();\n    m_state = Not")]),
 ('inh-all',['C21'],[(J,"sa->bInheritHandle = (pt == InputPipe);","sa->bInheritHandle = TRUE;")]),
 ('inh-none',['C21'],[(J,"sa->bInheritHandle = (pt == OutputPipe);","sa->bInheritHandle = FALSE;")]),
 ('inh-miss',['C21'],[(J,"    sa->bInheritHandle = (pt == OutputPipe);\n","")]),
 ('inh-swap',['C21'],[(J,"setupPipe(d->stdoutPipe, &sa, OutputPipe)","setupPipe(d->stdoutPipe, &sa, InputPipe)")]),
 ('inh-cp',['C21'],[(J,"0, 0, TRUE, dwCreationFlags","0, 0, FALSE, dwCreationFlags")]),
 ('wire1',['C21'],[(J,"si.hStdOutput = d->stdoutPipe.hWrite;","si.hStdOutput = d->stderrPipe.hWrite;"),(J,"si.hStdError = d->stderrPipe.hWrite;","si.hStdError = d->stdoutPipe.hWrite;")]),
 ('wire2',['C21'],[(J,"stderrChannel.stream = stderr","stderrChannel.stream = stdout")]),
 ('wire3',['C21'],[(J,"stdoutChannel.pipe = &stdoutPipe;","stdoutChannel.pipe = &stderrPipe;"),(J,"stderrChannel.pipe = &stderrPipe;","stderrChannel.pipe = &stdoutPipe;")]),
 ('wire4',['C21'],[(J,"    si.hStdInput = d->stdinPipe.hRead;\n","")]),
 ('wire5',['C21'],[(J,"    si.dwFlags = STARTF_USESTDHANDLES;\n","")]),
 ('dup',['C21'],[(J,"    free(strCommandLine);\n    strCommandLine = 0;\n    if (!bResult) {","    if (!bResult) {"),(J,"    // Close the pipe handles.","    free(strCommandLine);\n    // Close the pipe handles.")]),
 ('port',['C21'],[(P,"    QThread::wait();\n    CloseHandle(hPort);","    CloseHandle(hPort);\n    QThread::wait();")]),
 ('port2',['C21'],[(P,"    PostQueuedCompletionStatus(hPort, 0, NULL, NULL);\n","")]),
 ('procthread',['C21'],[(J,"    d->hProcessThread = pi.hThread;\n","")]),
 ('fclose',['C21'],[('makefilefactory.cpp',"        fclose(f);\n","")]),
 ('ok-closethread',['C21'],[(J,"    d->hProcessThread = pi.hThread;\n","    CloseHandle(pi.hThread);\n")]),
 ('ok-closer',['C21'],[(J,CLOSE4,"    closeAll();\n".replace("closeAll","d->closeOurs")),(J,"    void closePipes();\n","    void closePipes();\n    void closeOurs() {\n        Pipe *pipes[] = { &stdinPipe, &stdoutPipe, &stderrPipe };\n        for (Pipe *p : pipes) safelyCloseHandle(p->hWrite);\n        safelyCloseHandle(stdinPipe.hRead);\n    }\n")]),
 ('ok-pipes',['C21'],[(J,"""    Pipe *pipes[] = { &stdinPipe, &stdoutPipe, &stderrPipe };
    for (size_t i = 0; i < sizeof(pipes) / sizeof(pipes[0]); ++i) {
        safelyCloseHandle(pipes[i]->hWrite);
        safelyCloseHandle(pipes[i]->hRead);
    }
""","""    safelyCloseHandle(stdinPipe.hWrite);
    safelyCloseHandle(stdinPipe.hRead);
    safelyCloseHandle(stdoutPipe.hWrite);
    safelyCloseHandle(stdoutPipe.hRead);
    safelyCloseHandle(stderrPipe.hWrite);
    safelyCloseHandle(stderrPipe.hRead);
""")]),
 ('ok-inh',['C21'],[(J,"    sa->bInheritHandle = (pt == OutputPipe);\n","    sa->bInheritHandle = (pt == OutputPipe) ? TRUE : FALSE;\n")]),
 ('ok-inh2',['C21'],[(J,"    sa->bInheritHandle = (pt == OutputPipe);\n","    if (pt == OutputPipe)\n        sa->bInheritHandle = TRUE;\n    else\n        sa->bInheritHandle = FALSE;\n")]),
 ('ok-order',['C21'],[(J,END4,"".join(reversed(END4.splitlines(True))))]),
 ('ok-helper',['C21'],[(J,"""    if (!setupPipe(d->stdinPipe, &sa, InputPipe))
        qFatal("Cannot setup pipe for stdin.");
""","""    const bool stdinReady = setupPipe(d->stdinPipe, &sa, InputPipe);
    if (!stdinReady)
        qFatal("Cannot setup pipe for stdin.");
""")]),
 ('ok-forpipe',['C21'],[(J,"    do {\n        unsigned int randomValue;","    for (;;) {\n        unsigned int randomValue;"),(J,"    } while (--attempts > 0);","        if (--attempts == 0)\n            break;\n    }")]),
 ('ok-fail',['C21'],[(J,"    if (!bResult) {\n        d->closePipes();\n        m_state = NotRunning;\n        emit error(FailedToStart);\n        return;\n    }\n","    if (!bResult) {\n        startFailed();\n        return;\n    }\n"),(J,"void Process::tryToRetrieveExitCode()","void Process::startFailed()\n{\n    d->closePipes();\n    m_state = NotRunning;\n    emit error(FailedToStart);\n}\n\nvoid Process::tryToRetrieveExitCode()"),('jomprocess.h',"    void printBufferedOutput();\n","    void printBufferedOutput();\n    void startFailed();\n")]),
 # C22
 ('env-valonly',['C22'],[(J,"keystr.length() + it.value().length() + 2);","keystr.length() + it.value().length() + 1);")]),
 ('env-skipempty',['C22'],[(J,"            if (tmpSize == sizeof(wchar_t) * 2)\n","            if (it.value().isEmpty())\n")]),
 ('env-skip2',['C22'],[(J,"            if (tmpSize == sizeof(wchar_t) * 2)\n","            if (tmpSize <= sizeof(wchar_t) * 4)\n")]),
 ('env-noeq',['C22'],[(J,"static const wchar_t equal = L'=';","static const wchar_t equal = L':';")]),
 ('env-posmiss',['C22'],[(J,"            memcpy(envlist.data()+pos, &nul, sizeof(wchar_t));\n            pos += sizeof(wchar_t);","            memcpy(envlist.data()+pos, &nul, sizeof(wchar_t));")]),
 ('env-bytes',['C22'],[(J,"            tmpSize = it.value().length() * sizeof(wchar_t);","            tmpSize = it.value().length();")]),
 ('env-swap',['C22'],[(J,"memcpy(envlist.data() + pos, keystr.utf16(), tmpSize);","memcpy(envlist.data() + pos, it.value().utf16(), tmpSize);")]),
 ('env-stale',['C22'],[(J,"            tmpSize = it.value().length() * sizeof(wchar_t);","")]),
 ('env-noterm',['C22'],[(J,"        envlist.resize( envlist.size()+4 );\n        envlist[pos++] = 0;\n        envlist[pos++] = 0;\n        envlist[pos++] = 0;\n        envlist[pos++] = 0;\n","")]),
 ('env-term1',['C22'],[(J,"        envlist.resize( envlist.size()+4 );\n        envlist[pos++] = 0;\n        envlist[pos++] = 0;\n        envlist[pos++] = 0;\n        envlist[pos++] = 0;\n","        envlist.resize( envlist.size()+1 );\n        envlist[pos++] = 0;\n")]),
 ('env-unset',['C22'],[(J,"        envlist[pos++] = 0;\n        envlist[pos++] = 0;\n        envlist[pos++] = 0;\n","        envlist[pos++] = 0;\n        envlist[pos++] = 0;\n")]),
 ('env-nopath',['C22'],[(J,"            if (!path.isEmpty())\n                copy.insert(pathKey, path);\n","            Q_UNUSED(path);\n")]),
 ('env-noroot',['C22'],[(J,"            if (!systemRoot.isEmpty())\n                copy.insert(rootKey, systemRoot);","            if (systemRoot.isEmpty())\n                copy.insert(rootKey, systemRoot);")]),
 ('env-wrongroot',['C22'],[(J,"copy.insert(rootKey, systemRoot);","copy.insert(pathKey, systemRoot);")]),
 ('env-orig',['C22'],[(J,"it = copy.constBegin()","it = environment.constBegin()"),(J,"end = copy.constEnd()","end = environment.constEnd()")]),
 ('env-nosetpath',['C22'],[(J,"            if (!qSetEnvironmentVariable(pathKey, environment.value(pathKey)))\n                qWarning(\"jom: setting PATH failed\");","            ;")]),
 ('env-old',['C22'],[(J,"    m_environment = environment;\n    m_envBlock = createEnvBlock(environment);","    m_envBlock = createEnvBlock(m_environment);\n    m_environment = environment;")]),
 ('env-once',['C22'],[(J,"    m_envBlock = createEnvBlock(environment);","    if (m_envBlock.isEmpty())\n        m_envBlock = createEnvBlock(environment);")]),
 ('env-nopass',['C22'],[(J,"(m_envBlock.isEmpty() ? 0 : m_envBlock.data())","(m_workingDirectory.isEmpty() ? 0 : m_envBlock.data())")]),
 ('env-noflag',['C22'],[(J,"DWORD dwCreationFlags = CREATE_UNICODE_ENVIRONMENT;","DWORD dwCreationFlags = 0;")]),
 ('env-case',['C22'],[('processenvironment.h',"other.m_key, Qt::CaseInsensitive","other.m_key")]),
 ('env-first',['C22'],[(J,"        for ( ; it != end; ++it) {","        for (++it; it != end; ++it) {")]),
 ('ok-env-append',['C22'],[(J,"""            envlist.resize(envlist.size() + tmpSize);

            tmpSize = keystr.length() * sizeof(wchar_t);
            memcpy(envlist.data() + pos, keystr.utf16(), tmpSize);
            pos += tmpSize;

            memcpy(envlist.data()+pos, &equal, sizeof(wchar_t));
            pos += sizeof(wchar_t);

            tmpSize = it.value().length() * sizeof(wchar_t);
            memcpy(envlist.data()+pos, it.value().utf16(), tmpSize);
            pos += tmpSize;

            memcpy(envlist.data()+pos, &nul, sizeof(wchar_t));
            pos += sizeof(wchar_t);
""","""            envlist.append(reinterpret_cast<const char *>(keystr.utf16()), keystr.length() * sizeof(wchar_t));
            envlist.append(reinterpret_cast<const char *>(&equal), sizeof(wchar_t));
            envlist.append(reinterpret_cast<const char *>(it.value().utf16()), it.value().length() * sizeof(wchar_t));
            envlist.append(reinterpret_cast<const char *>(&nul), sizeof(wchar_t));
"""),(J,"""        envlist.resize( envlist.size()+4 );
        envlist[pos++] = 0;
        envlist[pos++] = 0;
        envlist[pos++] = 0;
        envlist[pos++] = 0;
""","        envlist.append(4, '\\0');\n"),(J,"        int pos = 0;\n","")]),
 ('ok-env-ptr',['C22'],[(J,"""            tmpSize = keystr.length() * sizeof(wchar_t);
            memcpy(envlist.data() + pos, keystr.utf16(), tmpSize);
            pos += tmpSize;

            memcpy(envlist.data()+pos, &equal, sizeof(wchar_t));
            pos += sizeof(wchar_t);
""","""            char *p = envlist.data() + pos;
            memcpy(p, keystr.utf16(), keystr.length() * sizeof(wchar_t));
            p += keystr.length() * sizeof(wchar_t);
            memcpy(p, &equal, sizeof(wchar_t));
            pos += (keystr.length() + 1) * sizeof(wchar_t);
""")]),
 ('ok-env-size',['C22'],[(J,"            envlist.resize(envlist.size() + tmpSize);","            const int oldSize = envlist.size();\n            envlist.resize(oldSize + int(tmpSize));")]),
 ('ok-env-skip',['C22'],[(J,"            if (tmpSize == sizeof(wchar_t) * 2)\n                continue;","            if (keystr.isEmpty() && it.value().isEmpty())\n                continue;")]),
 ('ok-env-nul',['C22'],[(J,"        static const wchar_t nul = L'\\0';","        const wchar_t nul = 0;")]),
 ('ok-env-helper',['C22'],[(J,"static QByteArray createEnvBlock(","static void addSystemRoot(ProcessEnvironment &copy)\n{\n    const ProcessEnvironmentKey rootKey(QLatin1String(\"SystemRoot\"));\n    if (copy.contains(rootKey))\n        return;\n    QString systemRoot = qGetEnvironmentVariable(L\"SystemRoot\");\n    if (!systemRoot.isEmpty())\n        copy.insert(rootKey, systemRoot);\n}\n\nstatic QByteArray createEnvBlock("),(J,"""        const ProcessEnvironmentKey rootKey(QLatin1String("SystemRoot"));
        if (!copy.contains(rootKey)) {
            QString systemRoot = qGetEnvironmentVariable(L"SystemRoot");
            if (!systemRoot.isEmpty())
                copy.insert(rootKey, systemRoot);
        }

        int""","        addSystemRoot(copy);\n        int")]),
 ('ok-env-while',['C22'],[(J,"        for ( ; it != end; ++it) {","        while (it != end) {"),(J,"                continue;\n            envlist.resize","            {\n                ++it;\n                continue;\n            }\n            envlist.resize"),(J,"            memcpy(envlist.data()+pos, &nul, sizeof(wchar_t));\n            pos += sizeof(wchar_t);","            memcpy(envlist.data()+pos, &nul, sizeof(wchar_t));\n            pos += sizeof(wchar_t);\n            ++it;")]),
 ('ok-env-less',['C22'],[('processenvironment.h',"    return lhs.compare(rhs) < 0;","    return QString::compare(lhs.toQString(), rhs.toQString(), Qt::CaseInsensitive) < 0;")]),
 ('ok-env-early',['C22'],[(J,"    if (!environment.isEmpty()) {\n        ProcessEnvironment copy","    if (environment.isEmpty())\n        return envlist;\n    {\n        ProcessEnvironment copy")]),
]
