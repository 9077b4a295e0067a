P='parser.cpp'; PP='preprocessor.cpp'; F='makefilefactory.cpp'; M='../app/main.cpp'; T='targetexecutor.cpp'; C='commandexecutor.cpp'; O='options.cpp'
CATCH="""        fprintf(stderr, "Error: %s\\n", qPrintable(e.message()));
        abortBuild(1);
    }
}

void TargetExecutor::buildNextTarget"""
CATCH2="""    } catch (const Exception &e) {
        fprintf(stderr, "Error: %s\\n", qPrintable(e.message()));
        abortBuild(1);
    }
"""
FC="""        m_errorType = ParserError;
        m_errorString = e.toString();
"""
MC="""            case MakefileFactory::ParserError:
            case MakefileFactory::IOError:
                fprintf(stderr, "Error: %s\\n", qPrintable(mf.errorString()));
                return 2;
"""
MUTANTS=[
 ('err-start-nomsg',['C23'],[(T,CATCH,CATCH.replace('        fprintf(stderr, "Error: %s\\n", qPrintable(e.message()));\n','        fprintf(stderr, "Error\\n");\n'))]),
 ('err-start-noabort',['C23'],[(T,CATCH,CATCH.replace('        abortBuild(1);\n',''))]),
 ('err-start-abort0',['C23'],[(T,CATCH,CATCH.replace('abortBuild(1)','abortBuild(0)'))]),
 ('err-build-finish',['C23'],[(T,CATCH2,CATCH2.replace('abortBuild(1)','finishBuild(0)'),)]),
 ('err-fact-notype',['C23'],[(F,FC,'        m_errorString = e.toString();\n')]),
 ('err-fact-nostr',['C23'],[(F,FC,'        m_errorType = ParserError;\n')]),
 ('err-fact-true',['C23'],[(F,'    return m_errorType == NoError;','    return m_errorType != IOError;')]),
 ('err-fact-x',['C23'],[(F,'            m_errorString = QLatin1String("Cannot reopen stderr handle for writing.");\n            m_errorType = IOError;\n','            m_errorString = QLatin1String("Cannot reopen stderr handle for writing.");\n')]),
 ('err-fact-reopen',['C23'],[(F,'        if (!_wfreopen(wszFileName, L"w", stderr)) {\n            m_errorString = QLatin1String("Cannot reopen stderr handle for writing.");\n            m_errorType = IOError;\n            return false;\n        }\n','        _wfreopen(wszFileName, L"w", stderr);\n')]),
 ('err-main-0',['C23'],[(M,MC,MC.replace('return 2','return 0'))]),
 ('err-main-io',['C23'],[(M,MC,MC.replace('            case MakefileFactory::IOError:\n',''))]),
 ('err-main-nomsg',['C23'],[(M,MC,MC.replace('fprintf(stderr, "Error: %s\\n", qPrintable(mf.errorString()));','break;'))]),
 ('err-main-catch',['C23'],[(M,'qPrintable(e.message()));\n        result = 2;','qPrintable(e.message()));\n        result = 0;')]),
 ('err-main-catch2',['C23'],[(M,'qPrintable(e.message()));\n        result = 2;','qPrintable(e.message()));')]),
 ('err-main-server',['C23'],[(M,'        if (!initJobServer(app, &processEnvironment, &jobServer))\n            return 3;\n','        initJobServer(app, &processEnvironment, &jobServer);\n')]),
 ('err-main-server0',['C23'],[(M,'&jobServer))\n            return 3;\n','&jobServer))\n            return 0;\n')]),
 ('err-server-true',['C23'],[(M,'qPrintable(jobServer->errorString()));\n            return false;','qPrintable(jobServer->errorString()));')]),
 ('err-parser-place',['C23'],[(P,'        // Enrich the error message with filename and line number.\n        error(e.message());','        throw Exception(e.message());')]),
 ('err-parser-swallow',['C23'],[(P,'        // Enrich the error message with filename and line number.\n        error(e.message());','        fprintf(stderr, "%s\\n", qPrintable(e.message()));')]),
 ('err-parser-lost',['C23'],[(P,'        // Enrich the error message with filename and line number.\n        error(e.message());','        error(QLatin1String("invalid line"));')]),
 ('err-parser-outside',['C23'],[(P,'    try {\n        readLine();\n        while (!m_line.isNull()) {','    readLine();\n    try {\n        while (!m_line.isNull()) {')]),
 ('err-parser-file',['C23'],[(P,'    throw FileException(msg, m_preprocessor->currentFileName(), m_preprocessor->lineNumber());','    throw Exception(msg);')]),
 ('err-pp-open',['C23'],[(PP,'    if (!reader->open()) {','    reader->open();\n    if (false) {')]),
 ('err-inl-open',['C23'],[(C,'            if (!tempFile.file->open(QFile::WriteOnly)) {','            tempFile.file->open(QFile::WriteOnly);\n        if (false) {')]),
 ('err-env-macro',['C23'],[('macrotable.cpp','for it.\n        // See section "Environment-Variable Macros" in the nmake documentation.\n        // Infamous example: PROMPT=$+$P$_$G\n        return;','for it.\n        // See section "Environment-Variable Macros" in the nmake documentation.\n        // Infamous example: PROMPT=$+$P$_$G\n        setMacroValue(upperName, value);\n        return;')]) ,
 ('err-dtor-throw',['C23'],[(T,'TargetExecutor::~TargetExecutor()\n{\n','TargetExecutor::~TargetExecutor()\n{\n    if (m_depgraph == 0)\n        throw Exception(QLatin1String("no graph"));\n')]),
 ('err-slot-throw',['C23'],[(T,'    } catch (const Exception &e) {\n        fprintf(stderr, "Error: %s\\n", qPrintable(e.message()));\n        abortBuild(1);\n    }\n','    } catch (const FileException &e) {\n        fprintf(stderr, "Error: %s\\n", qPrintable(e.message()));\n        abortBuild(1);\n    }\n')]),
 ('err-cmdline-quiet',['C23'],[(O,'fprintf(stderr, "Error: The macro name %s is invalid.", qPrintable(name));',';')]) ,
 ('err-cmdline-exit0',['C23'],[(O,'exit(128);','exit(0);')]),
 ('err-cmdline-J',['C23'],[(O,'fprintf(stderr, "Error: option -j expects a numerical argument\\n");',';')]),
 ('ok-err-abort',['C23'],[(T,CATCH,CATCH.replace('        abortBuild(1);\n','        const int status = 1;\n        abortBuild(status);\n'))]),
 ('ok-err-helper',['C23'],[(T,'void TargetExecutor::startProcesses()\n{','static void printError(const Exception &e)\n{\n    const QString text = e.message();\n    fprintf(stderr, "Error: %s\\n", qPrintable(text));\n}\n\nvoid TargetExecutor::startProcesses()\n{'),(T,CATCH,CATCH.replace('fprintf(stderr, "Error: %s\\n", qPrintable(e.message()));','printError(e);'))]),
 ('ok-err-main-if',['C23'],[(M,"""            switch (mf.errorType()) {
            case MakefileFactory::CommandLineError:
                showUsage();
                return 128;
            case MakefileFactory::ParserError:
            case MakefileFactory::IOError:
                fprintf(stderr, "Error: %s\\n", qPrintable(mf.errorString()));
                return 2;
            }
""","""            if (mf.errorType() == MakefileFactory::CommandLineError) {
                showUsage();
                return 128;
            }
            fprintf(stderr, "Error: %s\\n", qPrintable(mf.errorString()));
            return 2;
""")]),
 ('ok-err-main-bool',['C23'],[(M,'        if (!mf.apply(getCommandLineArguments(), &options)) {','        const bool loaded = mf.apply(getCommandLineArguments(), &options);\n        if (!loaded) {')]),
 ('ok-err-main-goto',['C23'],[(M,MC,"""            default:
                fprintf(stderr, "Error: %s\\n", qPrintable(mf.errorString()));
                return 2;
""")]),
 ('ok-err-fact-if',['C23'],[(F,'    return m_errorType == NoError;','    if (m_errorType != NoError)\n        return false;\n    return true;')]),
 ('ok-err-fact-early',['C23'],[(F,FC,FC+'        return false;\n')]),
 ('ok-err-fact-helper',['C23'],[(F,'bool MakefileFactory::apply(','static bool truncateFile(const wchar_t *name)\n{\n    FILE *f = _wfopen(name, L"w");\n    if (!f)\n        return false;\n    fclose(f);\n    return true;\n}\n\nbool MakefileFactory::apply('),(F,'        FILE *f = _wfopen(wszFileName, L"w");\n        if (!f) {','        if (!truncateFile(wszFileName)) {'),(F,'        fclose(f);\n        if (!_wfre','        if (!_wfre')]),
 ('ok-err-parser-two',['C23'],[(P,'    } catch (FileException&) {\n        throw;\n    } catch (Exception &e) {\n        // Enrich','    } catch (const FileException &) {\n        throw;\n    } catch (const Exception &e) {\n        // Enrich')]),
 ('ok-err-parser-msg',['C23'],[(P,'        error(e.message());','        const QString text = e.message();\n        error(text);')]),
 ('ok-err-open',['C23'],[(PP,'    if (!reader->open()) {','    const bool opened = reader->open();\n    if (!opened) {')]),
]
