T='targetexecutor.cpp'; C='commandexecutor.cpp'; M='main.cpp'; P='parser.cpp'; F='makefilefactory.cpp'
REL="""    if (m_jobAcquisitionCount > 0) {
        m_jobClient->release();
        m_jobAcquisitionCount--;
    }
    m_availableProcesses.append(executor);"""
MUTANTS = [
 # C06
 ('skipone',['C06'],[(T,"for (int i=1; i < targets.count(); ++i)","for (int i=1; i + 1 < targets.count(); ++i)")]),
 ('skipfrom2',['C06'],[(T,"for (int i=1; i < targets.count(); ++i)","for (int i=2; i < targets.count(); ++i)")]),
 ('prepend',['C06'],[(T,"m_pendingTargets.append( mkfile","m_pendingTargets.prepend( mkfile")]),
 ('takelast',['C06'],[(T,"m_pendingTargets.takeFirst()","m_pendingTargets.takeLast()")]),
 ('cond',['C06'],[(T,"            m_pendingTargets.append( mkfile->target(targets.at(i)) );","            if (mkfile->target(targets.at(i))->m_commands.count()) m_pendingTargets.append( mkfile->target(targets.at(i)) );")]),
 ('wrongfirst',['C06'],[(T,"const QString targetName = targets.first();","const QString targetName = targets.last();")]),
 ('noexist',['C06'],[(P,"        if (!m_makefile->target(targetName)) {\n            QString msg = QLatin1String(\"Target %1 d","        if (m_makefile->targets().isEmpty()) {\n            QString msg = QLatin1String(\"Target %1 d")]),
 ('existbreak',['C06'],[(P,"            throw Exception(msg.arg(targetName));\n        }\n    }\n\n    // if","            throw Exception(msg.arg(targetName));\n        }\n        break;\n    }\n\n    // if")]),
 ('noexist2',['C06'],[(T,"        if (!descblock) {","        if (!descblock && !targets.isEmpty() && targets.count() > 1) {")]),
 ('dropk',['C06'],[(T,"            fputs(\"jom: Option /K","            m_pendingTargets.clear();\n            fputs(\"jom: Option /K")]),
 ('nopass',['C06'],[(F,"parser.apply(&preprocessor, m_makefile, m_activeTargets)","{ QStringList none; parser.apply(&preprocessor, m_makefile, none); }")]),
 ('nopass2',['C06'],[(M,"executor.apply(mkfile.data(), mf.activeTargets());","executor.apply(mkfile.data(), QStringList());")]),
 ('takenobuild',['C06'],[(T,"                    m_depgraph->build(m_pendingTargets.takeFirst());","                    DescriptionBlock *next = m_pendingTargets.takeFirst();\n                    if (!next->m_bFileExists)\n                    m_depgraph->build(next);")]),
 ('ok-local',['C06'],[(T,"                    m_depgraph->build(m_pendingTargets.takeFirst());","                    DescriptionBlock *next = m_pendingTargets.takeFirst();\n                    m_depgraph->build(next);")]),
 ('ok-mid',['C06'],[(T,"        for (int i=1; i < targets.count(); ++i) {\n            m_pendingTargets.append( mkfile->target(targets.at(i)) );","        const int n = targets.size();\n        for (int i = 1; i != n; i++) {\n            DescriptionBlock *t = mkfile->target(targets.at(i));\n            m_pendingTargets << t;")]),
 ('ok-existidx',['C06'],[(P,"    foreach (const QString& targetName, m_activeTargets) {\n        if (!m_makefile->target(targetName)) {","    for (int i = 0; i < m_activeTargets.count(); ++i) {\n        const QString &targetName = m_activeTargets.at(i);\n        if (m_makefile->target(targetName) == 0) {")]),
 # C12
 ('poolplus',['C12'],[(T,"i < g_options.maxNumberOfJobs; ++i","i <= g_options.maxNumberOfJobs; ++i")]),
 ('poolplus2',['C12'],[(T,"        m_processes.append(executor);\n    }\n    m_av","        m_processes.append(executor);\n        m_processes.append(executor);\n    }\n    m_av")]),
 ('relnocount',['C12'],[(T,"        m_jobClient->release();\n        m_jobAcquisitionCount--;\n    }\n    m_available","        m_jobClient->release();\n    }\n    m_available")]),
 ('countnorel',['C12'],[(T,"        m_jobClient->release();\n        m_jobAcquisitionCount--;\n    }\n    m_available","        m_jobAcquisitionCount--;\n    }\n    m_available")]),
 ('relalways',['C12'],[(T,"    if (m_jobAcquisitionCount > 0) {\n        m_jobClient->release();\n        m_jobAcquisitionCount--;\n    }\n    m_available","    {\n        m_jobClient->release();\n        m_jobAcquisitionCount--;\n    }\n    m_available")]),
 ('relfail',['C12'],[(T,"    if (m_jobAcquisitionCount > 0) {\n        m_jobClient->release();\n        m_jobAcquisitionCount--;\n    }\n    m_available","    if (m_jobAcquisitionCount > 0 && !commandFailed) {\n        m_jobClient->release();\n        m_jobAcquisitionCount--;\n    }\n    m_available")]),
 ('relge',['C12'],[(T,"    if (m_jobAcquisitionCount > 0) {\n        m_jobClient->release();\n        m_jobAcquisitionCount--;\n    }\n    m_available","    if (m_jobAcquisitionCount >= 0) {\n        m_jobClient->release();\n        m_jobAcquisitionCount--;\n    }\n    m_available")]),
 ('noacqcheck',['C12'],[(T,"if (m_bAborted || m_jobClient->isAcquiring() ||","if (m_bAborted ||")]),
 ('startothers',['C12'],[(T,"            if (numberOfRunningProcesses() == 0) {\n                // Use","            if (numberOfRunningProcesses() <= 1) {\n                // Use")]),
 ('noreturn',['C12'],[(T,"    m_availableProcesses.append(executor);\n    if","    if (!commandFailed)\n    m_availableProcesses.append(executor);\n    if")]),
 ('nocountinc',['C12'],[(T,"                m_jobAcquisitionCount++;\n","")]),
 ('peek',['C12'],[(T,"*executor = m_availableProcesses.takeFirst();","*executor = m_availableProcesses.first();")]),
 ('waitleak',['C12'],[(T,"    loop.exec();\n    if (m_jobAcquisitionCount > 0) {\n        m_jobClient->release();\n        m_jobAcquisitionCount--;\n    }","    loop.exec();\n    if (m_jobAcquisitionCount > 0) {\n        m_jobClient->release();\n    }")]),
 ('single',['C12'],[(M,"            g_options.maxNumberOfJobs = 1;\n","")]),
 ('single2',['C12'],[(M,"        if (mkfile->isParallelExecutionDisabled()) {","        if (mkfile->isParallelExecutionDisabled() && !app.isSubJOM()) {")]),
 ('started',['C12'],[(T,"    connect(m_jobClient, &JobClient::acquired, this, &TargetExecutor::buildNextTarget);","",) if 0 else (T,"        connect(m_jobClient, &JobClient::acquired, this, &TargetExecutor::buildNextTarget);","        connect(m_jobClient, &JobClient::acquired, this, &TargetExecutor::buildNextTarget);\n        connect(this, &TargetExecutor::finished, this, &TargetExecutor::buildNextTarget);")]),
 ('ok-helper',['C12','C03'],[(T,REL,"    releaseToken();\n    m_availableProcesses.append(executor);"),(T,"int TargetExecutor::numberOf","void TargetExecutor::releaseToken()\n{\n    if (m_jobAcquisitionCount <= 0)\n        return;\n    m_jobClient->release();\n    --m_jobAcquisitionCount;\n}\n\nint TargetExecutor::numberOf"),('targetexecutor.h','    void waitForProcesses();','    void releaseToken();\n    void waitForProcesses();')]),
 ('ok-order',['C12','C03'],[(T,REL,"    m_availableProcesses.append(executor);\n    if (m_jobAcquisitionCount > 0) {\n        --m_jobAcquisitionCount;\n        m_jobClient->release();\n    }")]),
 ('ok-inv',['C12'],[(T,"            if (numberOfRunningProcesses() == 0) {\n                // Use up the internal job token.\n                buildNextTarget();\n            } else {\n                // Acquire a job token from the server. Will call buildNextTarget() when done.\n                m_jobAcquisitionCount++;\n                m_jobClient->asyncAcquire();\n            }","            const bool othersRun = numberOfRunningProcesses() > 0;\n            if (othersRun) {\n                m_jobClient->asyncAcquire();\n                m_jobAcquisitionCount += 1;\n            } else {\n                buildNextTarget();\n            }")]),
 ('ok-poolvar',['C12','C06'],[(T,"    for (int i = 0; i < g_options.maxNumberOfJobs; ++i) {\n        CommandExecutor* executor","    int remaining = g_options.maxNumberOfJobs;\n    while (remaining-- > 0) {\n        CommandExecutor* executor")]),
 ('ok-single',['C12','C05'],[(M,"        if (mkfile->isParallelExecutionDisabled()) {","        const bool serial = mkfile->isParallelExecutionDisabled();\n        if (serial) {")]),
]
