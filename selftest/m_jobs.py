S='jobserver.cpp'; J='jobclient.cpp'; H='jobclientacquirehelper.cpp'; M='main.cpp'; T='targetexecutor.cpp'; C='commandexecutor.cpp'
MUTANTS=[
 ('tok-n',['C13'],[(S,"maxNumberOfJobs - 1, QSystem","maxNumberOfJobs, QSystem")]),
 ('tok-open',['C13'],[(S,"QSystemSemaphore::Create)","QSystemSemaphore::Open)")]),
 ('nopid',['C13'],[(S,"QString::number(QCoreApplication::applicationPid()) + ","QString::number(randomId) + ")]),
 ('pub-early',['C13'],[(S,"    m_semaphore = new QSystemSemaphore(semaphoreKey","    m_environment->insert(QLatin1String(\"_JOMSRVKEY_\"), semaphoreKey);\n    m_semaphore = new QSystemSemaphore(semaphoreKey")]),
 ('pub-count',['C13'],[(S,"QString::number(maxNumberOfJobs));","QString::number(maxNumberOfJobs - 1));")]),
 ('pub-nocount',['C13'],[(S,"    m_environment->insert(QLatin1String(\"_JOMJOBCOUNT_\"), QString::number(maxNumberOfJobs));\n","")]),
 ('noerrtest',['C13'],[(S,"        return false;\n    }\n    m_env","    }\n    m_env")]),
 ('client-create',['C13'],[(J,"new QSystemSemaphore(semaphoreKey)","new QSystemSemaphore(semaphoreKey, 0, QSystemSemaphore::Create)")]),
 ('client-key',['C13'],[(J,"QLatin1String(\"_JOMSRVKEY_\")","QLatin1String(\"_JOMSRVKEY\")")]),
 ('client-nomove',['C13'],[(J,"    m_acquireHelper->moveToThread(m_acquireThread);\n","")]),
 ('client-direct',['C13'],[(J,"&JobClient::onHelperAcquired);","&JobClient::onHelperAcquired, Qt::DirectConnection);")]),
 ('acq-sync',['C13'],[(J,"    emit startAcquisition();","    m_acquireHelper->acquire();")]),
 ('acq-order',['C13'],[(J,"    m_isAcquiring = true;\n    emit startAcquisition();","    emit startAcquisition();\n    m_isAcquiring = true;")]),
 ('acq-order2',['C13'],[(J,"    m_isAcquiring = false;\n    emit acquired();","    emit acquired();\n    m_isAcquiring = false;")]),
 ('acq-fail',['C13'],[(H,"        return;\n    }\n    emit","    }\n    emit")]),
 ('rel2',['C13'],[(J,"m_semaphore->release()","m_semaphore->release(2)")]),
 ('create-always',['C13'],[(M,"        if (g_options.isMaxNumberOfJobsSet\n                && g","        if (g")]),
 ('create-inh',['C13'],[(M,"            if (ok && n > 0)\n                inheritedMaxNumberOfJobs = n;\n","            Q_UNUSED(n);\n")]),
 ('create-never',['C13'],[(M,"    } else {\n        mustCreateJobServer = true;\n","    } else if (g_options.isMaxNumberOfJobsSet) {\n        mustCreateJobServer = true;\n")]),
 ('create-eq',['C13'],[(M,"g_options.maxNumberOfJobs != inherited","g_options.maxNumberOfJobs > inherited")]),
 ('env-order',['C13'],[(M,"        TargetExecutor executor(processEnvironment);","        TargetExecutor executor(mkfile->macroTable()->environment());")]),
 ('fail-ignored',['C13'],[(M,"qPrintable(jobServer->errorString()));\n            return false;","qPrintable(jobServer->errorString()));")]),
 ('srv-scope',['C13'],[(M,"        QScopedPointer<JobServer> jobServerDeleter(jobServer);\n","        { QScopedPointer<JobServer> jobServerDeleter(jobServer); }\n")]),
 ('srv-del',['C13'],[(M,"        QScopedPointer<JobServer> jobServerDeleter(jobServer);\n",""),(M,"        g_pTargetExecutor = &executor;","        delete jobServer;\n        g_pTargetExecutor = &executor;")]),
 ('hand-proc',['C13'],[(C,"    m_process.setEnvironment(environment);\n    connect","    connect")]),
 ('hand-exec',['C13'],[(T,"new CommandExecutor(this, environment)","new CommandExecutor(this, ProcessEnvironment())")]),
 ('ok-create-expr',['C13'],[(M,"""    bool mustCreateJobServer = false;
    if (app.isSubJOM()) {""","""    bool mustCreateJobServer = !app.isSubJOM();
    if (!mustCreateJobServer) {"""),(M,"    } else {\n        mustCreateJobServer = true;\n    }\n\n    if (must","    }\n\n    if (must")]),
 ('ok-pub-helper',['C13'],[(S,"    m_environment->insert(QLatin1String(\"_JOMSRVKEY_\"), semaphoreKey);\n","    ProcessEnvironment &env = *m_environment;\n    env[QLatin1String(\"_JOMSRVKEY_\")] = semaphoreKey;\n")]),
 ('ok-acq',['C13'],[(H,"    if (!m_semaphore->acquire()) {","    const bool ok = m_semaphore->acquire();\n    if (ok)\n        emit acquired();\n    else {"),(H,"        return;\n    }\n    emit acquired();\n","    }\n")]),
 ('ok-tok',['C13'],[(S,"    m_semaphore = new QSystemSemaphore(semaphoreKey, maxNumberOfJobs - 1, QSystemSemaphore::Create);","    const int tokens = maxNumberOfJobs - 1;\n    QSystemSemaphore *sem = new QSystemSemaphore(semaphoreKey, tokens, QSystemSemaphore::Create);\n    m_semaphore = sem;")]),
 ('ok-inh-helper',['C13'],[(M,"""static bool initJobServer(""","""static int inheritedJobs(ProcessEnvironment *environment, int fallback)
{
    const QString str = environment->value(QLatin1String("_JOMJOBCOUNT_"));
    bool ok = false;
    const int n = str.toInt(&ok);
    return (ok && n > 0) ? n : fallback;
}

static bool initJobServer("""),(M,"""        int inheritedMaxNumberOfJobs = g_options.maxNumberOfJobs;
        const QString str = environment->value(QLatin1String("_JOMJOBCOUNT_"));
        if (!str.isEmpty()) {
            bool ok;
            const int n = str.toInt(&ok);
            if (ok && n > 0)
                inheritedMaxNumberOfJobs = n;
        }
""","""        int inheritedMaxNumberOfJobs = inheritedJobs(environment, g_options.maxNumberOfJobs);
""")]),
]
