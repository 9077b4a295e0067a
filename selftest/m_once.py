P, M, E, R, H = 'parser.cpp', 'makefile.cpp', 'commandexecutor.cpp', 'preprocessor.cpp', 'makefile.h'
C = ['C28']
ONE_FILE = '''        foreach (InlineFile* inlineFile, command.m_inlineFiles) {
            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
            inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);
            inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
            inlineFile->m_content.replace(fileNameMacroString, inferredDependent);
        }
        command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
        command.evaluateModifiers();
        command.m_commandLine.replace(fileNameMacroString, inferredDependent);
'''
SETUP = '''    QList<Command>::iterator it = target->m_commands.begin();
    QList<Command>::iterator itEnd = target->m_commands.end();
    for (; it != itEnd; ++it) {
        Command& command = *it;
'''
BATCH = '''        foreach (InlineFile* inlineFile, command.m_inlineFiles) {
            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
            inlineFile->m_filename.replace(fileNameMacroString, inferredDependents);
            inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
            inlineFile->m_content.replace(fileNameMacroString, inferredDependents);
        }
        command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
        command.evaluateModifiers();
        command.m_commandLine.replace(fileNameMacroString, inferredDependents);
'''
SIG = 'void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const InferenceRule *rule)'
COPY = '''    foreach (InlineFile* inlineFile, rhs.m_inlineFiles)
        m_inlineFiles.append(new InlineFile(*inlineFile));
'''
INFER = '''    if (inferenceRule) {
        cmd.m_commandLine = cmdLine.trimmed();
    } else {
        cmd.m_commandLine = m_preprocessor->macroTable()->expandMacros(cmdLine.trimmed());
        cmd.evaluateModifiers();
    }
'''
CONT = '''            QString contentLine;
            if (inferenceRule)
                contentLine = m_line;
            else
                contentLine = m_preprocessor->macroTable()->expandMacros(m_line);
'''
EXP = 'inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);\n            inlineFile->m_content.replace(fileNameMacroString, inferredDependent);'
MUTANTS = [
    # rule
    ('rule-content-raw', C, [(M, 'inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);\n            inlineFile->m_content.replace(fileNameMacroString, inferredDependent);', 'inlineFile->m_content.replace(fileNameMacroString, inferredDependent);')]),
    ('rule-name-raw', C, [(M, 'inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);\n            inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);', 'inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);')]),
    ('rule-name-no-dep', C, [(M, 'inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);', '')]),
    ('batch-content-no-dep', C, [(M, 'inlineFile->m_content.replace(fileNameMacroString, inferredDependents);', '')]),
    ('batch-line-no-dep', C, [(M, 'command.m_commandLine.replace(fileNameMacroString, inferredDependents);', '')]),
    ('batch-content-raw', C, [(M, 'inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);\n            inlineFile->m_content.replace(fileNameMacroString, inferredDependents);', 'inlineFile->m_content.replace(fileNameMacroString, inferredDependents);')]),
    ('batch-line-raw', C, [(M, '''        command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
        command.evaluateModifiers();
        command.m_commandLine.replace(fileNameMacroString, inferredDependents);''', '''        command.evaluateModifiers();
        command.m_commandLine.replace(fileNameMacroString, inferredDependents);''')]),
    ('rule-line-twice', C, [(M, ONE_FILE, ONE_FILE + '        command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);\n')]),
    ('rule-content-twice', C, [(M, ONE_FILE, ONE_FILE.replace('m_macroTable->expandMacros(inlineFile->m_content)', 'm_macroTable->expandMacros(m_macroTable->expandMacros(inlineFile->m_content))'))]),
    ('rule-replace-first', C, [(M, ONE_FILE, ONE_FILE.replace('''        command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
        command.evaluateModifiers();
        command.m_commandLine.replace(fileNameMacroString, inferredDependent);
''', '''        command.m_commandLine.replace(fileNameMacroString, inferredDependent);
        command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
        command.evaluateModifiers();
'''))]),
    ('rule-mods-first', C, [(M, ONE_FILE, ONE_FILE.replace('''        command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
        command.evaluateModifiers();
''', '''        command.evaluateModifiers();
        command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
'''))]),
    ('rule-no-mods', C, [(M, ONE_FILE, ONE_FILE.replace('        command.evaluateModifiers();\n', ''))]),
    ('batch-no-mods', C, [(M, BATCH, BATCH.replace('        command.evaluateModifiers();\n', ''))]),
    ('rule-first-file', C, [(M, ONE_FILE, ONE_FILE.replace('            inlineFile->m_content.replace(fileNameMacroString, inferredDependent);\n', '            inlineFile->m_content.replace(fileNameMacroString, inferredDependent);\n            break;\n'))]),
    ('rule-unless-empty', C, [(M, ONE_FILE, ONE_FILE.replace('foreach (InlineFile* inlineFile, command.m_inlineFiles) {', 'foreach (InlineFile* inlineFile, command.m_inlineFiles) {\n            if (inlineFile->m_filename.isEmpty())\n                continue;\n'))]),
    ('rule-if-dollar', C, [(M, ONE_FILE, ONE_FILE.replace('        command.m_commandLine = m_macroTable', '        if (!command.m_commandLine.startsWith(QLatin1Char(\'!\')))\n            command.m_commandLine = m_macroTable'))]),
    ('rule-content-name', C, [(M, ONE_FILE, ONE_FILE.replace('expandMacros(inlineFile->m_content)', 'expandMacros(inlineFile->m_filename)'))]),
    ('rule-dep-target', C, [(M, ONE_FILE, ONE_FILE.replace('command.m_commandLine.replace(fileNameMacroString, inferredDependent);', 'command.m_commandLine.replace(fileNameMacroString, target->targetName());'))]),
    ('rule-not-first-cmd', C, [(M, SETUP, SETUP.replace('for (; it != itEnd; ++it)', 'for (++it; it != itEnd; ++it)'))]),
    ('rule-only-first', C, [(M, 'command.m_commandLine.replace(fileNameMacroString, inferredDependent);\n', 'command.m_commandLine.replace(fileNameMacroString, inferredDependent);\n        if (command.m_singleExecution)\n            return;\n')]),
    ('batch-list-first', C, [(M, '''        inferredDependents.append(inferredDependent);
''', '''        if (inferredDependents.isEmpty())
            inferredDependents.append(inferredDependent);
''')]),
    ('batch-list-none', C, [(M, '''        inferredDependents.append(inferredDependent);
''', '')]),
    ('batch-list-late', C, [(M, '''        if (!executingTarget->m_dependents.contains(inferredDependent))
            executingTarget->m_dependents.append(inferredDependent);

        inferredDependents.append(inferredDependent);
''', '''        if (!executingTarget->m_dependents.contains(inferredDependent)) {
            executingTarget->m_dependents.append(inferredDependent);
            inferredDependents.append(inferredDependent);
        }
''')]),
    # block
    ('block-raw', C, [(P, INFER, INFER.replace('m_preprocessor->macroTable()->expandMacros(cmdLine.trimmed())', 'cmdLine.trimmed()'))]),
    ('block-both', C, [(P, INFER, INFER.replace('cmd.m_commandLine = cmdLine.trimmed();', 'cmd.m_commandLine = m_preprocessor->macroTable()->expandMacros(cmdLine.trimmed());'))]),
    ('block-mods-both', C, [(P, INFER, INFER.replace('''        cmd.evaluateModifiers();
    }
''', '''    }
    cmd.evaluateModifiers();
'''))]),
    ('block-mods-first', C, [(P, INFER, INFER.replace('''        cmd.m_commandLine = m_preprocessor->macroTable()->expandMacros(cmdLine.trimmed());
        cmd.evaluateModifiers();
''', '''        cmd.m_commandLine = cmdLine.trimmed();
        cmd.evaluateModifiers();
        cmd.m_commandLine = m_preprocessor->macroTable()->expandMacros(cmd.m_commandLine);
'''))]),
    ('block-mods-after-files', C, [(P, INFER + '\n    parseInlineFiles(cmd, inferenceRule);\n', INFER.replace('        cmd.evaluateModifiers();\n', '') + '\n    parseInlineFiles(cmd, inferenceRule);\n    if (!inferenceRule)\n        cmd.evaluateModifiers();\n')]),
    ('block-files-first', C, [(P, INFER + '\n    parseInlineFiles(cmd, inferenceRule);\n', INFER.replace('cmd.m_commandLine = m_preprocessor->macroTable()->expandMacros(cmdLine.trimmed());', 'cmd.m_commandLine = cmdLine.trimmed();').replace('        cmd.evaluateModifiers();\n', '') +
        '\n    parseInlineFiles(cmd, inferenceRule);\n    if (!inferenceRule) {\n        cmd.m_commandLine = m_preprocessor->macroTable()->expandMacros(cmd.m_commandLine);\n        cmd.evaluateModifiers();\n    }\n')]),
    ('block-flag-true', C, [(P, 'parseInlineFiles(cmd, inferenceRule);\n}', 'parseInlineFiles(cmd, true);\n}')]),
    ('block-flag-false', C, [(P, 'parseInlineFiles(cmd, inferenceRule);\n}', 'parseInlineFiles(cmd, false);\n}')]),
    ('block-no-files', C, [(P, '    parseInlineFiles(cmd, inferenceRule);\n}', '    if (cmd.m_commandLine.contains(QLatin1String("<<")))\n        parseInlineFiles(cmd, inferenceRule);\n}')]),
    ('content-raw', C, [(P, CONT, '            QString contentLine = m_line;\n')]),
    ('content-both', C, [(P, CONT, '            QString contentLine = m_preprocessor->macroTable()->expandMacros(m_line);\n')]),
    ('content-swap', C, [(P, CONT, CONT.replace('if (inferenceRule)', 'if (!inferenceRule)'))]),
    ('content-twice', C, [(P, 'inlineFile->m_content.append(contentLine);', 'inlineFile->m_content.append(inferenceRule ? contentLine : m_preprocessor->macroTable()->expandMacros(contentLine));')]),
    ('content-if-macro', C, [(P, CONT, CONT.replace('if (inferenceRule)', 'if (inferenceRule || m_line.startsWith(QLatin1Char(\'#\')))'))]),
    ('content-name-again', C, [(P, 'inlineFile->m_filename = cmd.m_commandLine.mid(fileNamePos, idx - fileNamePos);', 'inlineFile->m_filename = m_preprocessor->macroTable()->expandMacros(cmd.m_commandLine.mid(fileNamePos, idx - fileNamePos));')]),
    ('inplace-expanded', C, [(P, 'inPlaceCommand = inPlaceCommand.trimmed();', 'inPlaceCommand = m_preprocessor->macroTable()->expandMacros(inPlaceCommand.trimmed());')]),
    ('inplace-rule', C, [(P, 'parseCommandLine(inPlaceCommand, commands, false);', 'parseCommandLine(inPlaceCommand, commands, true);')]),
    ('command-rule', C, [(P, 'while (parseCommand(commands, false))', 'while (parseCommand(commands, true))')]),
    ('command-flag', C, [(P, 'parseCommandLine(m_line, commands, inferenceRule);', 'parseCommandLine(m_line, commands, false);')]),
    ('command-expanded', C, [(P, 'parseCommandLine(m_line, commands, inferenceRule);', 'parseCommandLine(m_preprocessor->macroTable()->expandMacros(m_line), commands, inferenceRule);')]),
    ('target-raw', C, [(P, '    target = m_preprocessor->macroTable()->expandMacros(target);\n', '')]),
    ('dependents-raw', C, [(P, 'value = m_preprocessor->macroTable()->expandMacros(value.trimmed(), true);', 'value = value.trimmed();')]),
    ('dependents-twice', C, [(P, '    value = QDir::toNativeSeparators(value);\n', '    value = QDir::toNativeSeparators(m_preprocessor->macroTable()->expandMacros(value, true));\n')]),
    # directive
    ('directive-raw', C, [(R, 'isPreprocessingDirective(expandedLine, directive, value))\n        return false;\n\n    if (directive', 'isPreprocessingDirective(line, directive, value))\n        return false;\n\n    if (directive')]),
    ('directive-twice', C, [(R, 'bool followElseBranch = evaluateExpandedExpression(value) == 0;', 'bool followElseBranch = evaluateExpression(value) == 0;')]),
    ('directive-elseif-twice', C, [(R, '|| evaluateExpandedExpression(value) == 0', '|| evaluateExpression(value) == 0')]),
    ('directive-value-again', C, [(R, '        puts(qPrintable(value));', '        puts(qPrintable(m_macroTable->expandMacros(value)));')]),
    ('directive-eval-expands', C, [(R, '    if (!m_expressionParser->parse(qPrintable(expr))) {', '    if (!m_expressionParser->parse(qPrintable(m_macroTable->expandMacros(expr)))) {')]),
    ('skip-expands', C, [(R, '        if (!isPreprocessingDirective(line.content, directive, value))', '        if (!isPreprocessingDirective(m_macroTable->expandMacros(line.content), directive, value))')]),
    # names
    ('names-kept-late', C, [(E, '    m_originalCommands = target->m_commands;\n\n', '\n'), (E, '    target->expandFileNameMacros();\n', '    target->expandFileNameMacros();\n    m_originalCommands = target->m_commands;\n')]),
    ('names-not-kept', C, [(E, '    m_originalCommands = target->m_commands;\n\n', '\n')]),
    ('names-kept-not-empty', C, [(E, '    m_originalCommands = target->m_commands;\n\n', '\n'), (E, '    target->expandFileNameMacros();\n', '    m_originalCommands = target->m_commands;\n    target->expandFileNameMacros();\n')]),
    ('names-not-back', C, [(E, '    m_pTarget->m_commands = m_originalCommands;\n', '')]),
    ('names-back-ok-only', C, [(E, '    m_pTarget->m_commands = m_originalCommands;\n', '    if (!commandFailed)\n        m_pTarget->m_commands = m_originalCommands;\n')]),
    ('names-no-expand', C, [(E, '    target->expandFileNameMacros();\n', '')]),
    ('names-twice', C, [(E, '    target->expandFileNameMacros();\n', '    target->expandFileNameMacros();\n    if (target->m_commands.count() > 1)\n        target->expandFileNameMacros();\n')]),
    ('names-after-files', C, [(E, '    target->expandFileNameMacros();\n    cleanupTempFiles();\n    createTempFiles();\n', '    cleanupTempFiles();\n    createTempFiles();\n    target->expandFileNameMacros();\n')]),
    # copy
    ('copy-no-single', C, [(M, ''',
    m_singleExecution(rhs.m_singleExecution)''', ''',
    m_singleExecution(false)''')]),
    ('copy-no-silent', C, [(M, '    m_silent(rhs.m_silent),\n    m_singleExecution(rhs', '    m_silent(false),\n    m_singleExecution(rhs')]),
    ('copy-shallow', C, [(M, '''    foreach (InlineFile* inlineFile, rhs.m_inlineFiles)
        m_inlineFiles.append(new InlineFile(*inlineFile));
''', '    m_inlineFiles = rhs.m_inlineFiles;\n')]),
    ('copy-shared', C, [(M, 'm_inlineFiles.append(new InlineFile(*inlineFile));', 'm_inlineFiles.append(inlineFile);')]),
    ('copy-empty', C, [(M, 'm_inlineFiles.append(new InlineFile(*inlineFile));', 'm_inlineFiles.append(new InlineFile);')]),
    ('copy-first', C, [(M, 'm_inlineFiles.append(new InlineFile(*rhs.m_inlineFiles.first()));' if 0 else 'm_inlineFiles.append(new InlineFile(*inlineFile));', 'm_inlineFiles.append(new InlineFile(*rhs.m_inlineFiles.first()));')]),
    ('copy-none', C, [(M, COPY, '')]),
    ('copy-file-content', C, [(M, '    m_filename(rhs.m_filename),\n    m_content(rhs.m_content)\n', '    m_filename(rhs.m_filename)\n')]),
    ('copy-file-keep', C, [(M, ':   m_keep(rhs.m_keep),\n', ':   m_keep(false),\n')]),
    ('copy-maxexit', C, [(M, '    m_maxExitCode(rhs.m_maxExitCode),\n', '    m_maxExitCode(0),\n')]),
    ('copy-assign', C, [(M, '            Command origCommand = *it;\n', '            Command origCommand;\n            origCommand = *it;\n')]),
    # ok
    ('ok-rule-helper', C, [(M, '            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);\n            inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);\n            ' + EXP,
        '            expandAndReplace(m_macroTable, inlineFile->m_filename, fileNameMacroString, inferredDependent);\n            expandAndReplace(m_macroTable, inlineFile->m_content, fileNameMacroString, inferredDependent);'),
        (M, 'Command::Command()\n', 'static void expandAndReplace(MacroTable *table, QString &str, const QString &macro, const QString &value)\n{\n    str = table->expandMacros(str);\n    str.replace(macro, value);\n}\n\nCommand::Command()\n')]),
    ('ok-rule-command-helper', C, [(M, ONE_FILE, '        expandCommand(m_macroTable, command, fileNameMacroString, inferredDependent);\n'), (M, BATCH, '        expandCommand(m_macroTable, command, fileNameMacroString, inferredDependents);\n'),
        (M, 'Command::Command()\n', 'static void expandCommand(MacroTable *m_macroTable, Command &command, const QString &fileNameMacroString, const QString &inferredDependent)\n{\n' + ONE_FILE + '}\n\nCommand::Command()\n')]),
    ('ok-rule-index', C, [(M, SETUP, '    for (int i = 0; i < target->m_commands.count(); ++i) {\n        Command &command = target->m_commands[i];\n')]),
    ('ok-rule-range', C, [(M, SETUP, '    for (Command &command : target->m_commands) {\n')]),
    ('ok-rule-temp', C, [(M, EXP, 'QString content = m_macroTable->expandMacros(inlineFile->m_content);\n            content.replace(fileNameMacroString, inferredDependent);\n            inlineFile->m_content = content;')]),
    ('ok-rule-chain', C, [(M, EXP, 'inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content).replace(fileNameMacroString, inferredDependent);')]),
    ('ok-rule-order', C, [(M, ONE_FILE, ''.join(ONE_FILE.splitlines(True)[6:] + ONE_FILE.splitlines(True)[:6]))]),
    ('ok-rule-files-index', C, [(M, ONE_FILE, ONE_FILE.replace('foreach (InlineFile* inlineFile, command.m_inlineFiles) {', 'for (int k = 0; k < command.m_inlineFiles.count(); ++k) {\n            InlineFile *inlineFile = command.m_inlineFiles.at(k);'))]),
    ('ok-batch-join', C, [(M, '    QString inferredDependents;\n', '    QStringList names;\n'), (M, '''        inferredDependents.append(inferredDependent);
        inferredDependents.append(QLatin1Char(' '));
    }
''', '''        names.append(inferredDependent);
    }
    const QString inferredDependents = names.join(QLatin1String(" "));
''')]),
    ('ok-batch-plus', C, [(M, '''        inferredDependents.append(inferredDependent);
        inferredDependents.append(QLatin1Char(' '));
''', '''        inferredDependents += inferredDependent + QLatin1Char(' ');
''')]),
    ('ok-block-ternary', C, [(P, INFER, '''    const QString trimmedLine = cmdLine.trimmed();
    cmd.m_commandLine = inferenceRule ? trimmedLine : m_preprocessor->macroTable()->expandMacros(trimmedLine);
    if (!inferenceRule)
        cmd.evaluateModifiers();
''')]),
    ('ok-block-inverted', C, [(P, INFER, '''    cmd.m_commandLine = cmdLine.trimmed();
    if (!inferenceRule) {
        cmd.m_commandLine = m_preprocessor->macroTable()->expandMacros(cmd.m_commandLine);
        cmd.evaluateModifiers();
    }
''')]),
    ('ok-content-ternary', C, [(P, CONT, '            QString contentLine = inferenceRule ? m_line : m_preprocessor->macroTable()->expandMacros(m_line);\n')]),
    ('ok-content-inverted', C, [(P, CONT, '            QString contentLine = m_line;\n            if (!inferenceRule)\n                contentLine = m_preprocessor->macroTable()->expandMacros(contentLine);\n')]),
    ('ok-content-plus', C, [(P, 'inlineFile->m_content.append(contentLine);', 'inlineFile->m_content += contentLine;')]),
    ('ok-inplace-mid', C, [(P, '''        inPlaceCommand = m_line;
        inPlaceCommand.remove(0, commandSeparatorPos + 1);
        inPlaceCommand = inPlaceCommand.trimmed();
''', '''        inPlaceCommand = m_line.mid(commandSeparatorPos + 1).trimmed();
''')]),
    ('ok-target-one', C, [(P, '''    QString target = m_line.left(separatorPos).trimmed();
    target = m_preprocessor->macroTable()->expandMacros(target);
''', '''    QString target = m_preprocessor->macroTable()->expandMacros(m_line.left(separatorPos).trimmed());
''')]),
    ('ok-names-helper', C, [(E, '    target->expandFileNameMacros();\n    cleanupTempFiles();\n    createTempFiles();\n', '    cleanupTempFiles();\n    target->expandFileNameMacros();\n    createTempFiles();\n')]),
    ('ok-copy-range', C, [(M, COPY, '    for (const InlineFile *file : rhs.m_inlineFiles) {\n        InlineFile *copy = new InlineFile(*file);\n        m_inlineFiles << copy;\n    }\n')]),
    ('ok-copy-index', C, [(M, COPY, '    for (int i = 0; i < rhs.m_inlineFiles.count(); ++i)\n        m_inlineFiles.append(new InlineFile(*rhs.m_inlineFiles.at(i)));\n')]),
    ('ok-copy-body', C, [(M, '''    m_maxExitCode(rhs.m_maxExitCode),
    m_silent(rhs.m_silent),
    m_singleExecution(rhs.m_singleExecution)
{
''', '''    m_maxExitCode(rhs.m_maxExitCode)
{
    m_silent = rhs.m_silent;
    m_singleExecution = rhs.m_singleExecution;
''')]),
]
