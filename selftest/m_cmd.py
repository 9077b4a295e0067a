C='commandexecutor.cpp'; T='targetexecutor.cpp'; M='main.cpp'; J='jomprocess.cpp'
EXEC0="""    if (m_pTarget->makefile()->options()->dryRun || (rexShellComment.indexIn(commandLine) >= 0))
    {
        onProcessFinished(0, Process::NormalExit);
        return;
    }"""
NEXTWD="""    if (!m_nextWorkingDir.isEmpty()) {
        m_process.setWorkingDirectory(m_nextWorkingDir);
        m_nextWorkingDir.clear();
    }
"""
ADV="""    ++m_currentCommandIdx;
    if (m_currentCommandIdx < m_pTarget->m_commands.count()) {
        executeCurrentCommandLine();
    } else {
        finishExecution(false);
    }"""
STAT="""    if (exitStatus != Process::NormalExit)
        exitCode = 2;
"""
CMP="    if (static_cast<unsigned int>(exitCode) > currentCommand.m_maxExitCode) {"
ECHO="""    if (m_pTarget->makefile()->options()->dryRun
        || (!cmd.m_silent && !m_pTarget->makefile()->options()->suppressExecutedCommandsDisplay))"""
MUTANTS = [
 # C14
 ('dry-nocheck',['C14'],[(C,EXEC0,EXEC0.replace("m_pTarget->makefile()->options()->dryRun || ",""))]),
 ('dry-late',['C14'],[(C,EXEC0,""),(C,"    bool executionSucceeded = false;",EXEC0+"\n    bool executionSucceeded = false;")]),
 ('dry-plus',['C14'],[(C,EXEC0,EXEC0.replace("options()->dryRun || ","options()->dryRun && cmd.m_silent || "))]),
 ('dry-silent',['C14'],[(C,"dryRun\n        || (!cmd.m_silent","dryRun && !cmd.m_silent\n        || (!cmd.m_silent")]),
 ('dump-go',['C14'],[(T,"        finishBuild(0);\n        return;\n    }\n\n    QMeta","        finishBuild(0);\n    }\n\n    QMeta")]),
 ('dump-noend',['C14'],[(T,"        m_depgraph->dump();\n        finishBuild(0);","        m_depgraph->dump();\n")]),
 # C15
 ('res-twice',['C15'],[(C,"        finishExecution(true);\n        return;\n    }\n\n    ++m","        finishExecution(true);\n    }\n\n    ++m")]),
 ('res-none',['C15'],[(C,"        finishExecution(true);\n        return;\n    }\n\n    ++m","        return;\n    }\n\n    ++m")]),
 ('noadv',['C15'],[(C,ADV,ADV.replace("    ++m_currentCommandIdx;\n",""))]),
 ('adv2',['C15'],[(C,ADV,ADV.replace("m_currentCommandIdx < m_pTarget","m_currentCommandIdx + 1 < m_pTarget"))]),
 ('adv3',['C15'],[(C,ADV,ADV.replace("m_currentCommandIdx < m_pTarget","m_currentCommandIdx <= m_pTarget"))]),
 ('adv4',['C15'],[(C,ADV,ADV.replace("++m_currentCommandIdx","m_currentCommandIdx += 1 + currentCommand.m_silent"))]),
 ('first1',['C15'],[(C,"m_currentCommandIdx = 0;","m_currentCommandIdx = target->m_commands.count() > 5 ? 1 : 0;")]),
 ('noignreset',['C15'],[(C,"        m_ignoreProcessErrors = false;\n    }\n\n    if (!exec","    }\n\n    if (!exec")]),
 ('noign',['C15'],[(C,"        m_ignoreProcessErrors = true;\n","")]),
 ('signedcmp',['C15'],[(C,CMP,CMP.replace("static_cast<unsigned int>(exitCode)","exitCode > 0 && (unsigned)exitCode"))]),
 ('signedcmp2',['C15'],[(C,CMP,CMP.replace("static_cast<unsigned int>(exitCode) > currentCommand.m_maxExitCode","exitCode > int(currentCommand.m_maxExitCode)"))]),
 ('byte',['C15'],[(C,CMP,CMP.replace("static_cast<unsigned int>","static_cast<unsigned char>"))]),
 ('ge',['C15'],[(C,CMP,CMP.replace(" > currentCommand"," >= currentCommand"))]),
 ('nocrash',['C15'],[(C,STAT,"")]),
 ('crash0',['C15'],[(C,STAT,STAT.replace("= 2","= 0"))]),
 ('nextcmd',['C15'],[(C,"m_pTarget->m_commands.at(m_currentCommandIdx);\n    if (static","m_pTarget->m_commands.at(0);\n    if (static")]),
 ('noerr',['C15'],[(C,"    onProcessFinished(2, (error","    if (error == Process::Crashed) onProcessFinished(2, (error")]),
 ('err0',['C15'],[(C,"    onProcessFinished(2, (error","    onProcessFinished(0, (error")]),
 ('poll-again',['C15'],[(J,"    if (m_state != Running)\n        return;\n\n    if (d->exitCode","    if (d->exitCode")]),
 ('ok-poll',['C15'],[(J,"    if (m_state != Running)\n        return;\n\n    if (d->exitCode == STILL","    if (!isRunning())\n        return;\n\n    if (d->exitCode == STILL")]),
 ('noconn',['C15'],[(C,"    connect(&m_process, SIGNAL(error(Process::ProcessError)), SLOT(onProcessError(Process::ProcessError)));\n","")]),
 ('noconn2',['C15'],[(C,"    connect(&m_process, SIGNAL(finished(int, Process::ExitStatus)), SLOT(onProcessFinished(int, Process::ExitStatus)));\n","")]),
 ('shell-none',['C15'],[(C,"    if (!executionSucceeded) {","    if (!executionSucceeded && !simpleCmdLine) {")]),
 ('builtin-go',['C15'],[(C,"            onProcessFinished(success ? 0 : 1, Process::NormalExit);\n            return;","            onProcessFinished(success ? 0 : 1, Process::NormalExit);")]),
 ('wait1',['C15','C03','C04'],[(C,"    while (m_process.isRunning())\n        m_process","    if (m_process.isRunning())\n        m_process")]),
 ('empty-fail',['C15'],[(C,"    if (target->m_commands.isEmpty()) {\n        finishExecution(false);","    if (target->m_commands.isEmpty()) {\n        finishExecution(true);")]),
 ('inactive',['C15','C03','C12'],[(C,"    m_active = false;\n    emit","    emit")]),
 ('active-empty',['C15','C12'],[(C,"    m_active = true;\n\n    if (target->m_commands.isEmpty()) {\n        finishExecution(false);\n        return;\n    }\n","    if (target->m_commands.isEmpty()) {\n        finishExecution(false);\n        return;\n    }\n    if (target->m_commands.count() > 1) m_active = true;\n")]),
 # C16
 ('echo-silent',['C16'],[(C,"(!cmd.m_silent && !m","(!m")]),
 ('echo-quiet',['C16'],[(C,"!cmd.m_silent && !m_pTarget->makefile()->options()->suppressExecutedCommandsDisplay","!cmd.m_silent")]),
 ('echo-or',['C16'],[(C,"!cmd.m_silent && !m","!cmd.m_silent || !m")]),
 ('echo-empty',['C16'],[(C,ECHO,ECHO.replace("(!cmd.m_silent","(commandLine.length() < 4000 && !cmd.m_silent"))]),
 ('echo-after',['C16'],[(C,"        output.append('\\n');\n        writeToStandardOutput(output);\n","        output.append('\\n');\n        if (!cmd.m_inlineFiles.isEmpty()) writeToStandardOutput(output);\n")]),
 ('echo-direct',['C19'],[(C,"        output.append('\\n');\n        writeToStandardOutput(output);","        output.append('\\n');\n        writeToChannel(output, stdout);")]),
 ('echo-unesc',['C16'],[(C,"    QString commandLine = cmd.m_commandLine;\n","    QString commandLine = cmd.m_commandLine;\n    commandLine.replace(QLatin1String(\"%%\"), QLatin1String(\"%\"));\n")]),
 # C17
 ('tmp-keepinv',['C17'],[(C,"if (!tempfile.keep) tempfile.file->remove();","if (tempfile.keep) tempfile.file->remove();")]),
 ('tmp-norm',['C17'],[(C,"        if (!tempfile.keep) tempfile.file->remove();\n","")]),
 ('tmp-one',['C17'],[(C,"    while (!m_tempFiles.isEmpty()) {","    if (!m_tempFiles.isEmpty()) {")]),
 ('tmp-nodtor',['C17'],[(C,"CommandExecutor::~CommandExecutor()\n{\n    cleanupTempFiles();","CommandExecutor::~CommandExecutor()\n{")]),
 ('tmp-nostart',['C17'],[(C,"    cleanupTempFiles();\n    createTempFiles();","    if (!m_tempFiles.isEmpty()) m_tempFiles.clear();\n    createTempFiles();")]),
 ('tmp-keepfalse',['C17'],[(C,"tempFile.keep = inlineFile->m_keep;","tempFile.keep = !inlineFile->m_filename.isEmpty();")]),
 ('tmp-noexc',['C17'],[(C,"                delete tempFile.file;\n                QString msg = QLatin1String(\"cannot open %1 for write\");\n                throw Exception(msg.arg(fileName));","                delete tempFile.file;\n                continue;")]),
 ('tmp-noclose',['C17'],[(C,"            tempFile.file->close();\n","")]),
 ('tmp-exists',['C17'],[(C,"while (QFile::exists(fileName));","while (false && QFile::exists(fileName));")]),
 ('tmp-append',['C17'],[(C,"            m_tempFiles.append(tempFile);","            if (!tempFile.keep || idx > 0) m_tempFiles.append(tempFile);")]),
 ('tmp-first',['C17'],[(C,"        foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {","        foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {\n            if (!m_tempFiles.isEmpty() && !inlineFile->m_filename.isEmpty()) break;")]),
 ('tmp-content',['C17'],[(C,"            tempFile.file->write(content);","            if (!m_pTarget->makefile()->options()->dumpInlineFiles) tempFile.file->write(content);")]),
 ('tmp-second',['C17'],[(C,"cmd.m_commandLine.replace(idx, 2, replacement)","cmd.m_commandLine.replace(idx, cmd.m_commandLine.length() - idx, replacement)")]),
 ('tmp-order',['C17'],[(C,"    target->expandFileNameMacros();\n    cleanupTempFiles();\n    createTempFiles();","    cleanupTempFiles();\n    createTempFiles();\n    target->expandFileNameMacros();")]),
 # C18
 ('set-local',['C18'],[(C,"                emit environmentChanged(environment);\n","")]),
 ('set-notown',['C18'],[(C,"                setEnvironment(environment);\n","")]),
 ('set-fresh',['C18'],[(C,"ProcessEnvironment environment = m_process.environment();\n                env","ProcessEnvironment environment;\n                env")]),
 ('set-conn',['C18'],[(T,"            connect(executor, SIGNAL(environmentChanged(const ProcessEnvironment &)),\n                    other, SLOT(setEnvironment(const ProcessEnvironment &)));\n","")]),
 ('set-conn2',['C18'],[(T,"            connect(other, SIGNAL(environmentChanged(const ProcessEnvironment &)),\n                    executor, SLOT(setEnvironment(const ProcessEnvironment &)));\n","")]),
 ('cd-ok',['C18'],[(C,"        writeToStandardError(msg.arg(args).toLocal8Bit());\n        return false;","        writeToStandardError(msg.arg(args).toLocal8Bit());\n        return true;")]),
 ('cd-invert',['C18'],[(C,"success ? 0 : 1","success ? 1 : 0")]),
 ('cd-rel',['C18'],[(C,"QFileInfo fi(QDir(m_process.workingDirectory()), args);","QFileInfo fi(args);")]),
 ('cd-relstore',['C18'],[(C,"m_nextWorkingDir = fi.absoluteFilePath();","m_nextWorkingDir = args;")]),
 ('cd-noapply',['C18'],[(C,NEXTWD,""),(C,"        m_ignoreProcessErrors = true;\n",NEXTWD+"        m_ignoreProcessErrors = true;\n")]),
 ('cd-noreset',['C18'],[(C,"    m_process.setWorkingDirectory(m_nextWorkingDir);\n    execute","    execute")]),
 ('cd-noclear',['C18'],[(C,"    m_nextWorkingDir.clear();\n    m_process.setW","    m_process.setW")]),
 ('cd-exists',['C18'],[(C,"    if (!fi.isDir()) {","    if (!fi.isDir() && changeDrive) {")]),
 ('cd-drive',['C18'],[(C,"        // ### handle the case where we cd into a dir on a drive != current drive \n","        if (args.indexOf(QLatin1Char(':')) == 1) return true;\n")]),
 ('ok-env-block',['C18'],[(J,"    m_environment = environment;\n    m_envBlock = createEnvBlock(environment);","    m_environment = environment;\n    m_envBlock = createEnvBlock(m_environment);")]),
 ('env-old',['C18'],[(J,"    m_environment = environment;\n    m_envBlock = createEnvBlock(environment);","    m_envBlock = createEnvBlock(m_environment);\n    m_environment = environment;")]),
 ('env-noblock',['C18'],[(J,"    m_environment = environment;\n    m_envBlock = createEnvBlock(environment);","    m_environment = environment;\n    if (m_envBlock.isEmpty()) m_envBlock = createEnvBlock(environment);")]),
 # quiet
 ('ok-adv',['C15','C14','C16'],[(C,ADV,"""    const int next = m_currentCommandIdx + 1;
    m_currentCommandIdx = next;
    if (next >= m_pTarget->m_commands.size()) {
        finishExecution(false);
        return;
    }
    executeCurrentCommandLine();""")]),
 ('ok-adv2',['C15','C14','C16'],[(C,ADV,"""    if (++m_currentCommandIdx == m_pTarget->m_commands.count())
        finishExecution(false);
    else
        executeCurrentCommandLine();""")]),
 ('ok-adv3',['C15','C14','C16'],[(C,ADV,"""    const bool last = m_currentCommandIdx + 1 >= m_pTarget->m_commands.count();
    ++m_currentCommandIdx;
    if (!last)
        executeCurrentCommandLine();
    else
        finishExecution(false);""")]),
 ('ok-stat',['C15','C14'],[(C,STAT+"\n    const","    const"),(C,CMP,"    const unsigned int status = exitStatus == Process::NormalExit ? static_cast<unsigned int>(exitCode) : 2u;\n    exitCode = int(status);\n    if (status > currentCommand.m_maxExitCode) {")]),
 ('ok-stat2',['C15','C14'],[(C,CMP,"    const bool failed = !(static_cast<uint>(exitCode) <= currentCommand.m_maxExitCode);\n    if (failed) {")]),
 ('ok-stat3',['C15','C14'],[(C,CMP,"    if (currentCommand.m_maxExitCode < uint(exitCode)) {")]),
 ('ok-echo',['C14','C16'],[(C,ECHO,"    const Options *options = m_pTarget->makefile()->options();\n    const bool quiet = cmd.m_silent || options->suppressExecutedCommandsDisplay;\n    if (options->dryRun || !quiet)")]),
 ('ok-echo2',['C14','C16'],[(C,ECHO,"    const Options *options = m_pTarget->makefile()->options();\n    bool echo = true;\n    if (cmd.m_silent || options->suppressExecutedCommandsDisplay) echo = options->dryRun;\n    if (echo)")]),
 ('ok-dry',['C14','C15','C16'],[(C,EXEC0,"""    const bool isComment = rexShellComment.indexIn(commandLine) != -1;
    if (m_pTarget->makefile()->options()->dryRun) {
        onProcessFinished(0, Process::NormalExit);
        return;
    }
    if (isComment) {
        onProcessFinished(0, Process::NormalExit);
        return;
    }""")]),
 ('ok-wd',['C18','C15'],[(C,NEXTWD,"""    const QString nextDir = m_nextWorkingDir;
    if (nextDir.length() > 0) {
        m_process.setWorkingDirectory(nextDir);
        m_nextWorkingDir.clear();
    }
""")]),
 ('ok-wd2',['C18','C15'],[(C,NEXTWD,"""    if (m_nextWorkingDir.isEmpty() == false) {
        const QString d = m_nextWorkingDir;
        m_nextWorkingDir = QString();
        m_process.setWorkingDirectory(d);
    }
""")]),
 ('ok-tmp',['C17'],[(C,"        const TempFile& tempfile = m_tempFiles.takeLast();\n        if (!tempfile.keep) tempfile.file->remove();","        const TempFile tempfile = m_tempFiles.takeFirst();\n        if (tempfile.keep == false)\n            tempfile.file->remove();")]),
 ('ok-tmp2',['C17'],[(C,"""    while (!m_tempFiles.isEmpty()) {
        const TempFile& tempfile = m_tempFiles.takeLast();
        if (!tempfile.keep) tempfile.file->remove();
        delete tempfile.file;
    }""","""    for (int i = 0; i < m_tempFiles.count(); ++i) {
        const TempFile& tempfile = m_tempFiles.at(i);
        if (!tempfile.keep) tempfile.file->remove();
        delete tempfile.file;
    }
    m_tempFiles.clear();""")]),
 ('ok-tmp3',['C17'],[(C,"""    QList<Command>::iterator it = m_pTarget->m_commands.begin();
    QList<Command>::iterator itEnd = m_pTarget->m_commands.end();
    for (; it != itEnd; ++it) {
        Command& cmd = *it;
        foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {""","""    for (int c = 0; c < m_pTarget->m_commands.count(); ++c) {
        Command& cmd = m_pTarget->m_commands[c];
        for (int f = 0; f < cmd.m_inlineFiles.count(); ++f) {
            InlineFile* inlineFile = cmd.m_inlineFiles.at(f);""")]),
 ('ok-set',['C18','C15'],[(C,"                setEnvironment(environment);\n                emit env","                m_process.setEnvironment(environment);\n                emit env")]),
 ('ok-cd',['C18','C15'],[(C,"    if (!fi.isDir()) {","    const bool found = fi.isDir();\n    if (!found) {")]),
 ('ok-cd2',['C18','C15'],[(C,"    QFileInfo fi(QDir(m_process.workingDirectory()), args);","    const QDir base(m_process.workingDirectory());\n    QFileInfo fi(base, args);")]),
 ('ok-exec',['C15','C18'],[(C,"    if (!executionSucceeded) {","    if (executionSucceeded)\n        return;\n\n    {")]),
 ('ok-builtin',['C15','C18'],[(C,"            onProcessFinished(success ? 0 : 1, Process::NormalExit);","            int status = 0;\n            if (!success)\n                status = 1;\n            onProcessFinished(status, Process::NormalExit);")]),
]
