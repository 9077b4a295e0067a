O='options.cpp'; M='../app/main.cpp'; F='makefilefactory.cpp'; T='targetexecutor.cpp'; C='commandexecutor.cpp'; D='dependencygraph.cpp'; K='makefile.cpp'
FCASE="""                makeflags.chop(1);
                if (arg.isEmpty()) {
                    if (arguments.isEmpty()) {
                        fprintf(stderr, "Error: no filename specified for option -f\\n");
                        return false;
                    }
                    makefile = arguments.takeFirst();
                } else {
                    makefile = arg;
                    arg = QString();
                }
"""
DG="""            } else if (upperArg.startsWith(QLatin1String("DUMPGRAPHDOT"))) {
                arg.remove(0, 12);
                dumpDependencyGraph = true;
                dumpDependencyGraphDot = true;
                showLogo = false;
            } else if (upperArg.startsWith(QLatin1String("DUMPGRAPH"))) {
                arg.remove(0, 9);
                dumpDependencyGraph = true;
                showLogo = false;
"""
DG2="""            } else if (upperArg.startsWith(QLatin1String("DUMPGRAPH"))) {
                arg.remove(0, 9);
                dumpDependencyGraph = true;
                showLogo = false;
            } else if (upperArg.startsWith(QLatin1String("DUMPGRAPHDOT"))) {
                arg.remove(0, 12);
                dumpDependencyGraph = true;
                dumpDependencyGraphDot = true;
                showLogo = false;
"""
TOP="""        QChar ch = arg.at(0);
        if (!makeflags.contains(ch))
            makeflags.append(ch);
        arg.remove(0, 1);
        switch (ch.toUpper().toLatin1()) {
"""
JF="""                    makeflags.remove(QRegExp(QLatin1String("[Jj][0-9]*")));
                    makeflags += ch;
                    makeflags += nJobsStr;
"""
MUTANTS=[
 ('opt-field',['C24'],[(O,"                suppressExecutedCommandsDisplay = true;","                suppressOutputMessages = true;")]),
 ('opt-i',['C24'],[(O,"                stopOnErrors = false;\n                break;","                break;")]),
 ('opt-fall',['C24'],[(O,"                dryRun = true;\n                break;","                dryRun = true;")]),
 ('opt-y',['C24'],[(O,"                batchModeEnabled = false;","                batchModeEnabled = true;")]),
 ('opt-case',['C24'],[(O,"switch (ch.toUpper().toLatin1())","switch (ch.toLatin1())")]),
 ('opt-f-flag',['C24'],[(O,FCASE,FCASE.replace('                makeflags.chop(1);\n',''))]),
 ('opt-f-rest',['C24'],[(O,FCASE,FCASE.replace('                    arg = QString();\n',''))]),
 ('opt-chop2',['C24'],[(O,"                printWorkingDir = true;","                printWorkingDir = true;\n                makeflags.chop(1);")]),
 ('opt-dot',['C24'],[(O,DG,DG2)]),
 ('opt-long-len',['C24'],[(O,'arg.remove(0, 9);','arg.remove(0, 8);')]),
 ('opt-nologo',['C24'],[(O,"                makeflags.append(QLatin1Char('L'));\n",'')]),
 ('opt-j-first',['C24'],[(O,JF,JF.replace('                    makeflags.remove(QRegExp(QLatin1String("[Jj][0-9]*")));\n',''))]),
 ('opt-j-nonum',['C24'],[(O,JF,JF.replace('                    makeflags += nJobsStr;\n',''))]),
 ('opt-j-zero',['C24'],[(O,"if (g_options.maxNumberOfJobs < 1)","if (g_options.maxNumberOfJobs < 0)")]),
 ('opt-j-ok',['C24'],[(O,"if (!ok) {","if (!ok && nJobsStr.isEmpty()) {")]),
 ('opt-j-set',['C24'],[(O,"                    g_options.isMaxNumberOfJobsSet = true;\n","")]),
 ('opt-unknown',['C24'],[(O,"                            ch.toLatin1(), qPrintable(arglist));\n                    return false;","                            ch.toLatin1(), qPrintable(arglist));\n                    break;")]),
 ('opt-ik',['C24'],[(O,"    if (!stopOnErrors && buildUnrelatedTargetsOnError)  // /I overrides /K\n        buildUnrelatedTargetsOnError = false;\n","")]),
 ('opt-ik2',['C24'],[(O,"    if (!stopOnErrors && buildUnrelatedTargetsOnError)  // /I overrides /K\n        buildUnrelatedTargetsOnError = false;\n","    if (stopOnErrors && buildUnrelatedTargetsOnError)  // /I overrides /K\n        buildUnrelatedTargetsOnError = false;\n")]),
 ('opt-twice',['C24'],[(O,"            if (!targets.contains(arg))\n","")]),
 ('opt-slash',['C24'],[(O,"        if (arg.at(0) == QLatin1Char('-') ||\n            arg.at(0) == QLatin1Char('/'))","        if (arg.at(0) == QLatin1Char('-') ||\n            (arg.at(0) == QLatin1Char('/') && !arg.contains(QLatin1Char('='))))")]),
 ('opt-default',['C24'],[(O,"    showLogo(true)","    showLogo(false)")]),
 ('opt-default2',['C24'],[(O,"    dryRun(false)","    dryRun(true)")]),
 ('opt-eff-R',['C24'],[(F,"if (!options->ignorePredefinedRulesAndMacros) {","if (options->ignorePredefinedRulesAndMacros) {")]),
 ('opt-eff-P',['C24'],[(M,'            printf("\\nTARGETS:\\n\\n");\n            mkfile->dumpTargets();\n','            if (options->showLogo)\n                mkfile->dumpTargets();\n')]),
 ('opt-eff-W',['C24'],[(M,"        result = app.exec();\n        g_pTargetExecutor = 0;\n        if (options->printWorkingDir) {","        result = app.exec();\n        g_pTargetExecutor = 0;\n        if (options->printWorkingDir && result == 0) {")]),
 ('opt-eff-Y',['C24'],[(K,"if (!applyingBatchMode && m_options->batchModeEnabled && rule->m_batchMode) {","if (!applyingBatchMode && rule->m_batchMode) {")]),
 ('opt-eff-U',['C24'],[(C,"if (m_pTarget->makefile()->options()->dumpInlineFiles) {","if (m_pTarget->makefile()->options()->dryRun) {")]),
 ('opt-eff-D',['C24'],[(D,"if (node->target->makefile()->options()->displayBuildInfo) {","if (isUpToDate && node->target->makefile()->options()->displayBuildInfo) {")]),
 ('opt-eff-dot',['C24'],[(T,"if (m_makefile->options()->dumpDependencyGraphDot)","if (!m_makefile->options()->dumpDependencyGraphDot)")]),
 ('opt-eff-V',['C24'],[(M,"} else if (options->showVersionAndExit) {","} else if (options->showVersionAndExit && options->showLogo) {")]),
 ('ok-opt-helper',['C24'],[(O,"bool Options::handleCommandLineOption(const","static bool isFileOption(QChar c)\n{\n    return c == QLatin1Char('F') || c == QLatin1Char('f') || c == QLatin1Char('X') || c == QLatin1Char('x');\n}\n\nbool Options::handleCommandLineOption(const"),(O,"        if (!makeflags.contains(ch))\n","        if (!isFileOption(ch) && !makeflags.contains(ch))\n"),(O,FCASE,FCASE.replace('                makeflags.chop(1);\n','')),(O,"            case 'X':\n                makeflags.chop(1);\n","            case 'X':\n")]),
 ('ok-opt-order',['C24'],[(O,TOP,TOP.replace('        arg.remove(0, 1);\n','').replace("        if (!make","        arg.remove(0, 1);\n        if (!make"))]),
 ('ok-opt-const',['C24'],[(O,TOP,TOP.replace("switch (ch.toUpper().toLatin1()) {","const char letter = ch.toUpper().toLatin1();\n        switch (letter) {"))]),
 ('ok-opt-hq',['C24'],[(O,"            case 'H':\n            case '?':\n                showUsageAndExit = true;\n                break;\n","            case 'H':\n                showUsageAndExit = true;\n                break;\n            case '?':\n                showUsageAndExit = true;\n                break;\n")]),
 ('ok-opt-takefile',['C24'],[(O,"bool Options::handleCommandLineOption(const","static bool fileArgument(QString &arg, QStringList &arguments, char letter, QString &result)\n{\n    if (!arg.isEmpty()) {\n        result = arg;\n        arg.clear();\n        return true;\n    }\n    if (arguments.isEmpty()) {\n        fprintf(stderr, \"Error: no filename specified for option -%c\\n\", letter);\n        return false;\n    }\n    result = arguments.takeFirst();\n    return true;\n}\n\nbool Options::handleCommandLineOption(const"),(O,FCASE,"                makeflags.chop(1);\n                if (!fileArgument(arg, arguments, 'f', makefile))\n                    return false;\n")]),
 ('ok-opt-long',['C24'],[(O,"bool Options::handleCommandLineOption(const","static bool skipPrefix(QString &arg, const QString &upperArg, const char *name)\n{\n    const QLatin1String prefix(name);\n    if (!upperArg.startsWith(prefix))\n        return false;\n    arg.remove(0, static_cast<int>(qstrlen(name)));\n    return true;\n}\n\nbool Options::handleCommandLineOption(const"),(O,'} else if (upperArg.startsWith(QLatin1String("DEBUG"))) {\n                arg.remove(0, 5);\n','} else if (skipPrefix(arg, upperArg, "DEBUG")) {\n')]),
 ('ok-opt-while',['C24'],[(O,"    while (!arguments.isEmpty()) {\n        QString arg = arguments.takeFirst();","    for (; !arguments.isEmpty();) {\n        QString arg = arguments.first();\n        arguments.removeFirst();")]),
 ('ok-opt-dash',['C24'],[(O,"        if (arg.at(0) == QLatin1Char('-') ||\n            arg.at(0) == QLatin1Char('/'))","        if (arg.startsWith(QLatin1Char('-')) || arg.startsWith(QLatin1Char('/')))")]),
 ('ok-opt-ik',['C24'],[(O,"    if (!stopOnErrors && buildUnrelatedTargetsOnError)  // /I overrides /K\n        buildUnrelatedTargetsOnError = false;\n","    if (!stopOnErrors)  // /I overrides /K\n        buildUnrelatedTargetsOnError = false;\n")]),
 ('ok-opt-dump',['C24'],[(M,"int main(int argc","static void printMakeInformation(Makefile *mkfile)\n{\n    printf(\"MACROS:\\n\\n\");\n    mkfile->macroTable()->dump();\n    printf(\"\\nINFERENCE RULES:\\n\\n\");\n    mkfile->dumpInferenceRules();\n    printf(\"\\nTARGETS:\\n\\n\");\n    mkfile->dumpTargets();\n}\n\nint main(int argc"),(M,'            printf("MACROS:\\n\\n");\n            mkfile->macroTable()->dump();\n            printf("\\nINFERENCE RULES:\\n\\n");\n            mkfile->dumpInferenceRules();\n            printf("\\nTARGETS:\\n\\n");\n            mkfile->dumpTargets();\n','            printMakeInformation(mkfile.data());\n')]),
]
