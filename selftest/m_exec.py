T='targetexecutor.cpp'; C='commandexecutor.cpp'; D='dependencygraph.cpp'; M='main.cpp'; P='process.cpp'
MUTANTS = [
 ('noabortflag',['C03'],[(T,"    m_bAborted = true;\n    m_depgraph->clear();","    m_depgraph->clear();")]),
 ('abortlate',['C03'],[(T,"    m_bAborted = true;\n    m_depgraph->clear();\n    m_pendingTargets.clear();\n    waitForProcesses();","    m_depgraph->clear();\n    m_pendingTargets.clear();\n    waitForProcesses();\n    m_bAborted = true;")]),
 ('nowait',['C03'],[(T,"    waitForProcesses();\n    waitForJobClient();","    waitForJobClient();")]),
 ('waitactive',['C03'],[(T,"    foreach (CommandExecutor* process, m_processes)\n        process->waitForFinished();","    foreach (CommandExecutor* process, m_availableProcesses)\n        process->waitForFinished();")]),
 ('waitone',['C03'],[(C,"    while (m_process.isRunning())\n        m_process.waitForFinished();","    m_process.waitForFinished();")]),
 ('nostartcheck',['C03'],[(T,"    if (m_bAborted || m_jobClient->isAcquiring()","    if (m_jobClient->isAcquiring()")]),
 ('nobuildcheck',['C03'],[(T,"    if (m_bAborted)\n        return;\n\n    try {\n        CommandExecutor","    try {\n        CommandExecutor")]),
 ('onlyfirstfailure',['C03'],[(T,"bool abortMakeProcess = commandFailed && !","bool abortMakeProcess = commandFailed && !m_pendingTargets.isEmpty() && !")]),
 ('status0',['C03','C05'],[(T,"        abortBuild(2);\n","        abortBuild(m_depgraph->findAvailableTarget(false) ? 2 : 0);\n")]),
 ('stopline',['C03'],[(C,"        finishExecution(true);\n        return;\n    }\n\n    ++m","        if (m_currentCommandIdx + 1 == m_pTarget->m_commands.count()) {\n        finishExecution(true);\n        return; }\n    }\n\n    ++m")]),
 ('stopline2',['C03'],[(C,"        writeToStandardError(msg);\n        finishExecution(true);","        writeToStandardError(msg);\n        finishExecution(!m_ignoreProcessErrors);")]),
 ('kmark',['C04'],[(T,"            m_depgraph->markParentsRecursivlyUnbuildable(executor->target());\n            fputs","            fputs")]),
 ('kmarklate',['C04'],[(T,"            m_depgraph->markParentsRecursivlyUnbuildable(executor->target());\n            fputs","            fputs"),(T,"    m_availableProcesses.append(executor);\n    if","    if (commandFailed) m_depgraph->markParentsRecursivlyUnbuildable(executor->target());\n    m_availableProcesses.append(executor);\n    if")]),
 ('knorec',['C04'],[(D,"        markParentsRecursivlyUnbuildable(parent);","        if (parent->parents.isEmpty()) markParentsRecursivlyUnbuildable(parent);")]),
 ('kfirst',['C04'],[(D,"        markParentsRecursivlyUnbuildable(parent);","        markParentsRecursivlyUnbuildable(parent);\n        break;")]),
 ('kskip',['C04'],[(T,"""                       && m_depgraph->isUnbuildable(m_nextTarget)) {""","""                       && m_pendingTargets.isEmpty() && m_depgraph->isUnbuildable(m_nextTarget)) {""")]),
 ('kgo',['C04'],[(T,"    QMetaObject::invokeMethod(this, \"startProcesses\", Qt::QueuedConnection);\n}\n\nint","    if (!commandFailed)\n        QMetaObject::invokeMethod(this, \"startProcesses\", Qt::QueuedConnection);\n}\n\nint")]),
 ('kforget',['C04','C05'],[(T,"    if (commandFailed) {\n        m_all","    m_allCommandsSuccessfullyExecuted = !commandFailed;\n    if (commandFailed) {\n        m_all")]),
 ('kinverse',['C05'],[(T,"        && !m_allCommandsSuccessfullyExecuted\n","        && !m_allCommandsSuccessfullyExecuted && m_bAborted\n")]),
 ('zerorunning',['C05'],[(T,"            if (numberOfRunningProcesses() == 0) {\n                if (m_pend","            if (numberOfRunningProcesses() <= 1) {\n                if (m_pend")]),
 ('zeropending',['C05'],[(T,"                if (m_pendingTargets.isEmpty()) {","                if (m_pendingTargets.count() <= 1) {")]),
 ('errzero',['C05'],[(T,"        abortBuild(1);\n    }\n}\n\nvoid TargetExecutor::waitFor","        abortBuild(0);\n    }\n}\n\nvoid TargetExecutor::waitFor")]),
 ('errnowait',['C03'],[(T,"        abortBuild(1);\n    }\n}\n\nvoid TargetExecutor::waitFor","        finishBuild(1);\n    }\n}\n\nvoid TargetExecutor::waitFor")]),
 ('errnoend',['C03'],[(T,"        abortBuild(1);\n    }\n}\n\nvoid TargetExecutor::waitFor","        if (m_processes.count() > 1) abortBuild(1);\n    }\n}\n\nvoid TargetExecutor::waitFor")]),
 ('main128',['C05'],[(M,"                return 128;","                return 0;")]),
 ('mainresult',['C05'],[(M,"        result = app.exec();","        result = app.exec() ? 1 : 0;")]),
 ('mainexc',['C05'],[(M,"        result = 2;\n","")]),
 ('mainjs',['C05'],[(M,"            return 3;","            return result;")]),
 ('mainnoconn',['C05'],[(M,"&executor, SIGNAL(finished(int)), &app, SLOT(exit(int))","&executor, SIGNAL(finished(int)), &app, SLOT(quit())")]),
 ('appexit',['C05'],[('application.cpp',"    QCoreApplication::exit(exitCode);","    QCoreApplication::exit(exitCode & 1);")]),
 ('factorykind',['C05'],[('makefilefactory.cpp','            m_errorString = QLatin1String("Cannot reopen stderr handle for writing.");\n            m_errorType = IOError;\n','            m_errorString = QLatin1String("Cannot reopen stderr handle for writing.");\n')]),
 ('ok-inlinecheck',['C03','C04','C05'],[(T,"    bool abortMakeProcess = commandFailed && !m_makefile->options()->buildUnrelatedTargetsOnError;\n    if (abortMakeProcess) {","    const bool keepGoing = m_makefile->options()->buildUnrelatedTargetsOnError;\n    if (commandFailed && !keepGoing) {")]),
 ('ok-abortinl',['C03','C04','C05'],[(T,"        abortBuild(2);\n    }","        m_pendingTargets.clear();\n        m_bAborted = true;\n        m_depgraph->clear();\n        waitForProcesses();\n        waitForJobClient();\n        finishBuild(2);\n    }")]),
 ('ok-earlyret',['C03','C04','C05'],[(T,"    bool abortMakeProcess = commandFailed && !m_makefile->options()->buildUnrelatedTargetsOnError;\n    if (abortMakeProcess) {","    if (!commandFailed || m_makefile->options()->buildUnrelatedTargetsOnError) {\n        QMetaObject::invokeMethod(this, \"startProcesses\", Qt::QueuedConnection);\n        return;\n    }\n    {"),(T,"        abortBuild(2);\n    }\n\n    QMetaObject::invokeMethod(this, \"startProcesses\", Qt::QueuedConnection);","        abortBuild(2);\n    }\n")]),
 ('ok-idxloop',['C03','C04','C05'],[(T,"    foreach (CommandExecutor* process, m_processes)\n        process->waitForFinished();","    for (int i = 0; i < m_processes.count(); ++i)\n        m_processes.at(i)->waitForFinished();")]),
 ('ok-success',['C03','C04','C05','C15'],[(C,"    ++m_currentCommandIdx;\n    if (m_currentCommandIdx < m_pTarget->m_commands.count()) {\n        executeCurrentCommandLine();\n    } else {\n        finishExecution(false);\n    }","    if (++m_currentCommandIdx >= m_pTarget->m_commands.count()) {\n        finishExecution(false);\n        return;\n    }\n    executeCurrentCommandLine();")]),
 ('ok-status',['C03','C04','C05'],[(T,"""    if (exitCode == 0
        && !m_allCommandsSuccessfullyExecuted
        && m_makefile->options()->buildUnrelatedTargetsOnError)
    {
        // /k specified and some command failed
        exitCode = 1;
    }
    emit finished(exitCode);""","""    const bool failedUnderK = !m_allCommandsSuccessfullyExecuted
        && m_makefile->options()->buildUnrelatedTargetsOnError;
    emit finished(exitCode == 0 && failedUnderK ? 1 : exitCode);""")]),
 ('ok-fnt',['C03','C04','C05'],[(T,"""    forever {
        m_nextTarget = m_depgraph->findAvailableTarget(m_makefile->options()->buildAllTargets);
        if (m_nextTarget) {
            if (m_nextTarget->m_commands.isEmpty()) {
                // Short cut for targets without commands.
                m_depgraph->removeLeaf(m_nextTarget);
                continue;
            } else if""","""    const bool all = m_makefile->options()->buildAllTargets;
    while ((m_nextTarget = m_depgraph->findAvailableTarget(all)) != 0) {
        {
            if (m_nextTarget->m_commands.isEmpty()) {
                // Short cut for targets without commands.
                m_depgraph->removeLeaf(m_nextTarget);
                continue;
            } else if""")]),
 ('ok-main',['C03','C04','C05'],[(M,"            switch (mf.errorType()) {\n            case MakefileFactory::CommandLineError:\n                showUsage();\n                return 128;\n            case MakefileFactory::ParserError:\n            case MakefileFactory::IOError:\n                fprintf(stderr, \"Error: %s\\n\", qPrintable(mf.errorString()));\n                return 2;\n            }","            if (mf.errorType() == MakefileFactory::CommandLineError) {\n                showUsage();\n                return 128;\n            }\n            fprintf(stderr, \"Error: %s\\n\", qPrintable(mf.errorString()));\n            return 2;")]),
]
