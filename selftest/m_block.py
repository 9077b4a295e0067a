P = 'parser.cpp'
C = ['C33']
def m(name, old, new, c=C): return (name, c, [(P, old, new)])
CAN = 'DescriptionBlock::AddCommandsState canAddCommands = separatorLength > 1 ? DescriptionBlock::ACSEnabled : DescriptionBlock::ACSDisabled;'
ADD = '''        if (!commands.isEmpty()) {
            if (canAddCommands == DescriptionBlock::ACSEnabled || descblock->m_commands.isEmpty())
                descblock->m_commands.append(commands);
'''
MIX = '''            if (canAddCommands != descblock->m_canAddCommands &&
                descblock->m_canAddCommands != DescriptionBlock::ACSUnknown)
'''
VAL = '''    QString value = m_line;
    if (commandSeparatorPos >= 0) value.truncate(commandSeparatorPos);
    value.remove(0, separatorPos + separatorLength);
'''
LOOK = '''        DescriptionBlock* descblock = m_makefile->target(t);
'''
DRIVE = '''            if (i == 1 && firstChar.isLetter())
                continue;
            // Is it a drive letter somewhere in the line?
            if (i > 1 && m_line.at(i-1).isLetter()) {
                const QChar &ch2 = m_line.at(i-2);
                if (ch2.isSpace() || ch2 == QLatin1Char('"'))
                    continue;
            }
'''
LEN = '''    if (idx < lineLength && m_line.at(idx) == QLatin1Char(':'))
        separatorLength = 2;
    else
        separatorLength = 1;
'''
REM = '''    for (int i=toRemove.count() - 1; i >= 0; i--) {
        if (cmdSepIdx == -1) {
            line.remove(toRemove.at(i), 1);
        } else if (toRemove.at(i) < cmdSepIdx) {
            line.remove(toRemove.at(i), 1);
            --cmdSepIdx;
        }
    }
'''
CUT = '''    if (0 <= commentIdx && (commentIdx < cmdSepIdx || cmdSepIdx == -1)) {
'''
INPL = '''        inPlaceCommand.remove(0, commandSeparatorPos + 1);
'''
READ = '''    readLine();
    if (m_line.trimmed().isEmpty()) {
        readLine();
    } else {
        while (parseCommand(commands, false))
            readLine();
    }
'''
MUTANTS = [
    m('val-no-cut', 'if (commandSeparatorPos >= 0) value.truncate(commandSeparatorPos);', ''),
    m('val-cut-late', VAL, '''    QString value = m_line;
    value.remove(0, separatorPos + separatorLength);
    if (commandSeparatorPos >= 0) value.truncate(commandSeparatorPos);
'''),
    m('val-sep-one', 'value.remove(0, separatorPos + separatorLength);', 'value.remove(0, separatorPos + 1);'),
    m('val-cut-one', 'value.truncate(commandSeparatorPos);', 'value.truncate(commandSeparatorPos + 1);'),
    m('val-cut-if-positive', 'if (commandSeparatorPos >= 0) value.truncate', 'if (commandSeparatorPos > separatorPos + separatorLength) value.truncate'),
    m('target-left-one', 'm_line.left(separatorPos).trimmed();', 'm_line.left(separatorPos - 1).trimmed();'),
    m('inplace-semicolon', INPL, INPL.replace('commandSeparatorPos + 1', 'commandSeparatorPos')),
    m('inplace-lost', 'parseCommandLine(inPlaceCommand, commands, false);', 'if (commandSeparatorPos > separatorPos + separatorLength)\n            parseCommandLine(inPlaceCommand, commands, false);'),
    m('inplace-after', READ, '''    readLine();
    if (m_line.trimmed().isEmpty()) {
        readLine();
    } else {
        while (parseCommand(commands, false))
            readLine();
    }
    commands = commands.mid(1) + commands.mid(0, 1);
''') if 0 else m('blank-commands', READ, '''    readLine();
    if (m_line.isEmpty()) {
        readLine();
    } else {
        while (parseCommand(commands, false))
            readLine();
    }
'''),
    m('commands-one', READ, READ.replace('while (parseCommand(commands, false))', 'if (parseCommand(commands, false))')),
    m('commands-skip', READ, READ.replace('            readLine();\n    }', '            { readLine(); if (m_line.isEmpty()) readLine(); }\n    }')),
    m('commands-inplace-only', READ, READ.replace('if (m_line.trimmed().isEmpty()) {', 'if (commandSeparatorPos >= 0) {')),
    m('can-swapped', CAN, CAN.replace('> 1', '< 2')),
    m('can-gt2', CAN, CAN.replace('> 1', '> 2')),
    m('mix-none', MIX, '            if (false)\n'),
    m('mix-unknown', MIX, '            if (canAddCommands != descblock->m_canAddCommands)\n'),
    m('mix-only-double', MIX, MIX.replace('descblock->m_canAddCommands != DescriptionBlock::ACSUnknown', 'descblock->m_canAddCommands == DescriptionBlock::ACSEnabled')),
    m('can-not-remembered', '''            descblock = createTarget(t);
            descblock->m_canAddCommands = canAddCommands;
''', '            descblock = createTarget(t);\n'),
    m('can-not-remembered2', '            descblock->m_canAddCommands = canAddCommands;\n        } else {', '        } else {'),
    m('can-order', '''            descblock->m_canAddCommands = canAddCommands;
            canAddCommands = DescriptionBlock::ACSEnabled;
''', '''            canAddCommands = DescriptionBlock::ACSEnabled;
            descblock->m_canAddCommands = canAddCommands;
'''),
    m('add-always', ADD, ADD.replace('if (canAddCommands == DescriptionBlock::ACSEnabled || descblock->m_commands.isEmpty())', 'if (true)')),
    m('add-only-empty', ADD, ADD.replace('canAddCommands == DescriptionBlock::ACSEnabled || ', '')),
    m('add-only-enabled', ADD, ADD.replace(' || descblock->m_commands.isEmpty()', '')),
    m('add-and', ADD, ADD.replace('||', '&&')),
    m('add-disabled', ADD, ADD.replace('ACSEnabled', 'ACSDisabled')),
    m('new-not-enabled', '            canAddCommands = DescriptionBlock::ACSEnabled;\n', '', []),
    m('np-continue', '''            m_makefile->setParallelExecutionDisabled(true);
            continue;
''', '''            m_makefile->setParallelExecutionDisabled(true);
'''),
    m('np-break', '''            m_makefile->setParallelExecutionDisabled(true);
            continue;
''', '''            m_makefile->setParallelExecutionDisabled(true);
            break;
'''),
    m('np-false', 'setParallelExecutionDisabled(true)', 'setParallelExecutionDisabled(commands.isEmpty())'),
    m('deps-targets', 'descblock->m_dependents.append(dependents);', 'descblock->m_dependents.append(targets);'),
    m('deps-new-only', '        descblock->m_dependents.append(dependents);\n', '        if (firstNewDependent == 0)\n            descblock->m_dependents.append(dependents);\n'),
    m('deps-late', '''        descblock->m_dependents.append(dependents);
        descblock->expandFileNameMacrosForDependents();
''', '''        descblock->expandFileNameMacrosForDependents();
        descblock->m_dependents.append(dependents);
'''),
    m('deps-no-sync', '        extractSyncPoints(descblock->m_dependents, firstNewDependent);\n', ''),
    m('only-first-target', 'const QStringList targets = splitTargetNames(target);', 'const QStringList targets = splitTargetNames(target).mid(0, 1);', []),
    m('stop-after-existing', '                qWarning("Cannot add commands to previously defined target %s.", qPrintable(t));\n', '            {\n                qWarning("Cannot add commands to previously defined target %s.", qPrintable(t));\n                break;\n            }\n'),
    m('target-first', LOOK, '        DescriptionBlock* descblock = m_makefile->target(targets.first());\n'),
    m('create-first', 'descblock = createTarget(t);', 'descblock = createTarget(targets.first());'),
    m('create-always', LOOK, '        DescriptionBlock* descblock = 0;\n'),
    m('create-if-commands', LOOK, '        DescriptionBlock* descblock = m_makefile->target(t);\n        if (descblock && descblock->m_dependents.isEmpty() && descblock->m_commands.isEmpty())\n            descblock = 0;\n'),
    # separator
    m('sep-no-level', 'parenthesisLevel == 0 && ch ==', 'ch =='),
    m('sep-level-once', '            --parenthesisLevel;\n', '            parenthesisLevel = 0;\n', []),
    m('sep-level-missing', '            ++parenthesisLevel;\n', ''),
    m('sep-drive0', DRIVE, DRIVE.replace('i == 1 &&', 'i == 0 &&')),
    m('sep-drive-no-letter', DRIVE, DRIVE.replace('if (i == 1 && firstChar.isLetter())', 'if (i == 1)')),
    m('sep-drive-later-missing', DRIVE, DRIVE[:DRIVE.index('            // Is it a drive letter some')]),
    m('sep-drive-quote', DRIVE, DRIVE.replace(''' || ch2 == QLatin1Char('"')''', '')),
    m('sep-drive-space', DRIVE, DRIVE.replace('ch2.isSpace() || ', '')),
    m('sep-drive-any', DRIVE, DRIVE.replace('''if (ch2.isSpace() || ch2 == QLatin1Char('"'))
                    continue;''', 'Q_UNUSED(ch2);\n                continue;')),
    m('sep-drive-i2', DRIVE, DRIVE.replace('i > 1 &&', 'i > 2 &&')),
    m('sep-drive-prev', DRIVE, DRIVE.replace('m_line.at(i-1).isLetter()', 'm_line.at(i-1).isLetterOrNumber()')),
    m('sep-drive-offset', DRIVE, DRIVE.replace('m_line.at(i-2)', 'm_line.at(0)')),
    m('sep-last', '''            separatorPos = i;
            break;
''', '''            separatorPos = i;
'''),
    m('sep-len-always-1', LEN, '    Q_UNUSED(idx);\n    separatorLength = 1;\n'),
    m('sep-len-le', LEN, LEN.replace('idx < lineLength', 'idx + 1 < lineLength')),
    m('sep-len-prev', LEN, LEN.replace('m_line.at(idx) ==', 'm_line.at(idx - 1) ==')),
    m('sep-blank-ok', '''    if (isSpaceOrTab(firstChar))
        return false;

    separatorPos = -1;''', '''    separatorPos = -1;'''),
    # comment
    m('com-esc-none', "if (commentIdx > 0 && (line.at(commentIdx - 1) == QLatin1Char('^'))) {", "if (false) {"),
    m('com-esc-no-note', '            toRemove.append(commentIdx - 1);  // remove the ^ characters later\n', ''),
    m('com-esc-note-hash', 'toRemove.append(commentIdx - 1);', 'toRemove.append(commentIdx);'),
    m('com-quoted-ignored', '        if (commentIdx < 0 || !quotedVector[commentIdx])\n', '        if (true)\n'),
    m('sep-quoted-ignored', 'while (cmdSepIdx >= 0 && quotedVector[cmdSepIdx]);', 'while (false);'),
    m('com-after-cmd', CUT, CUT.replace('(commentIdx < cmdSepIdx || cmdSepIdx == -1)', 'true')),
    m('com-only-no-cmd', CUT, CUT.replace('(commentIdx < cmdSepIdx || cmdSepIdx == -1)', 'cmdSepIdx == -1')),
    m('com-only-cmd', CUT, CUT.replace('(commentIdx < cmdSepIdx || cmdSepIdx == -1)', 'commentIdx < cmdSepIdx')),
    m('com-first-col', CUT, CUT.replace('0 <= commentIdx', '0 < commentIdx')),
    m('com-sep-left', '''        line.truncate(commentIdx);
        cmdSepIdx = -1;
''', '''        line.truncate(commentIdx);
'''),
    m('com-not-cut', '        line.truncate(commentIdx);\n', ''),
    m('rem-none', REM, ''),
    m('rem-in-command', REM, '''    for (int i=toRemove.count() - 1; i >= 0; i--) {
        line.remove(toRemove.at(i), 1);
        if (cmdSepIdx != -1)
            --cmdSepIdx;
    }
'''),
    m('rem-only-comment', REM, REM.replace('''        } else if (toRemove.at(i) < cmdSepIdx) {
            line.remove(toRemove.at(i), 1);
            --cmdSepIdx;
        }
''', '''        }
''')),
    m('rem-not-first', REM, REM.replace('i >= 0; i--', 'i > 0; i--')),
    m('vec-no-toggle', 'isInDoubleQuote = !isInDoubleQuote;\n        quotedVector', 'isInDoubleQuote = true;\n        quotedVector'),
    m('vec-first', '''quotedVector[0] = (line.at(0) == QLatin1Char('"'));''', 'quotedVector[0] = false;'),
    m('vec-prev', 'bool isInDoubleQuote = quotedVector[i-1];', 'bool isInDoubleQuote = quotedVector[0];'),
    m('vec-apos', '''if (line.at(i) == QLatin1Char('"'))
            isInDouble''', '''if (line.at(i) == QLatin1Char('\\''))
            isInDouble'''),
    # ok
    m('ok-mid', VAL, '''    const int valuePos = separatorPos + separatorLength;
    QString value = commandSeparatorPos >= 0 ? m_line.mid(valuePos, commandSeparatorPos - valuePos) : m_line.mid(valuePos);
'''),
    m('ok-mid2', VAL, '''    QString value = m_line.mid(separatorPos + separatorLength);
    if (commandSeparatorPos >= 0)
        value = value.left(commandSeparatorPos - separatorPos - separatorLength);
'''),
    m('ok-left', VAL, '''    QString value = commandSeparatorPos < 0 ? m_line : m_line.left(commandSeparatorPos);
    value = value.mid(separatorPos + separatorLength);
'''),
    m('ok-sep-ne', 'if (commandSeparatorPos >= 0) value.truncate', 'if (commandSeparatorPos != -1) value.truncate'),
    m('ok-inplace', '''        QString inPlaceCommand;
        inPlaceCommand = m_line;
        inPlaceCommand.remove(0, commandSeparatorPos + 1);
        inPlaceCommand = inPlaceCommand.trimmed();
        parseCommandLine(inPlaceCommand, commands, false);
''', '''        parseCommandLine(m_line.mid(commandSeparatorPos + 1).trimmed(), commands, false);
'''),
    m('ok-can-ifelse', CAN, '''DescriptionBlock::AddCommandsState canAddCommands = DescriptionBlock::ACSDisabled;
        if (separatorLength == 2)
            canAddCommands = DescriptionBlock::ACSEnabled;'''),
    m('ok-add-bool', ADD, '''        if (!commands.isEmpty()) {
            const bool mayAdd = canAddCommands == DescriptionBlock::ACSEnabled || descblock->m_commands.isEmpty();
            if (mayAdd)
                descblock->m_commands += commands;
'''),
    m('ok-mix-nested', MIX, '''            if (descblock->m_canAddCommands != DescriptionBlock::ACSUnknown
                && descblock->m_canAddCommands != canAddCommands)
'''),
    m('ok-foreach-index', '    foreach (const QString& t, targets) {\n        if (t == QStringLiteral', '    for (int ti = 0; ti < targets.count(); ++ti) {\n        const QString &t = targets.at(ti);\n        if (t == QStringLiteral'),
    m('ok-read-loop', READ, '''    readLine();
    if (isEmptyLine(m_line)) {
        readLine();
    } else {
        for (;;) {
            if (!parseCommand(commands, false))
                break;
            readLine();
        }
    }
'''),
    m('ok-drive-one', DRIVE, '''            const bool atBegin = i == 1 && firstChar.isLetter();
            if (atBegin)
                continue;
            if (i >= 2 && m_line.at(i-1).isLetter() && (m_line.at(i-2).isSpace() || m_line.at(i-2) == QLatin1Char('"')))
                continue;
'''),
    m('ok-drive-at0', DRIVE, DRIVE.replace('firstChar.isLetter()', 'm_line.at(0).isLetter()')),
    m('ok-len-ternary', LEN, '''    separatorLength = (idx < lineLength && m_line.at(idx) == QLatin1Char(':')) ? 2 : 1;
'''),
    m('ok-len-default', LEN, '''    separatorLength = 1;
    if (idx < m_line.length() && m_line.at(idx) == QLatin1Char(':'))
        separatorLength = 2;
'''),
    m('ok-sep-return', '''            separatorPos = i;
            break;
''', '''            separatorPos = i;
            goto found;
''', []),
    m('ok-com-cond', CUT, '''    if (commentIdx != -1 && (cmdSepIdx == -1 || commentIdx < cmdSepIdx)) {
'''),
    m('ok-rem', REM, '''    for (int i=toRemove.count() - 1; i >= 0; i--) {
        const int caretIdx = toRemove.at(i);
        const bool inCommand = cmdSepIdx != -1 && caretIdx >= cmdSepIdx;
        if (inCommand)
            continue;
        line.remove(caretIdx, 1);
        if (cmdSepIdx != -1)
            --cmdSepIdx;
    }
'''),
    m('ok-vec', '''        bool isInDoubleQuote = quotedVector[i-1];
        if (line.at(i) == QLatin1Char('"'))
            isInDoubleQuote = !isInDoubleQuote;
        quotedVector[i] = isInDoubleQuote;
''', '''        if (line.at(i) == QLatin1Char('"'))
            quotedVector[i] = !quotedVector[i-1];
        else
            quotedVector[i] = quotedVector[i-1];
'''),
    m('ok-sep-while', '''    int cmdSepIdx = -1;
    do {
        cmdSepIdx = line.indexOf(QLatin1Char(';'), cmdSepIdx + 1);
    } while (cmdSepIdx >= 0 && quotedVector[cmdSepIdx]);
''', '''    int cmdSepIdx = line.indexOf(QLatin1Char(';'));
    while (cmdSepIdx >= 0 && quotedVector[cmdSepIdx])
        cmdSepIdx = line.indexOf(QLatin1Char(';'), cmdSepIdx + 1);
'''),
    ('ok-helper', C, [(P, '''            if (i == 1 && firstChar.isLetter())
                continue;
''' + DRIVE[DRIVE.index('            // Is it a drive letter some'):], '''            if (isDriveColon(m_line, i))
                continue;
'''), (P, '''/**
 * Test if this a description block''', '''static bool isDriveColon(const QString &line, int i)
{
    if (i == 1 && line.at(0).isLetter())
        return true;
    if (i > 1 && line.at(i-1).isLetter()) {
        const QChar &ch2 = line.at(i-2);
        return ch2.isSpace() || ch2 == QLatin1Char('"');
    }
    return false;
}

/**
 * Test if this a description block''')]),
]
MUTANTS = [x for x in MUTANTS if x[1]]
HASH = '''    int commentIdx = -1;
    QList<int> toRemove;
    while (true) {
        commentIdx = line.indexOf(QLatin1Char('#'), commentIdx + 1);
        if (commentIdx > 0 && (line.at(commentIdx - 1) == QLatin1Char('^'))) {
            toRemove.append(commentIdx - 1);  // remove the ^ characters later
            continue;
        }
        if (commentIdx < 0 || !quotedVector[commentIdx])
            break;
    }
'''
SEP = '''    int cmdSepIdx = -1;
    do {
        cmdSepIdx = line.indexOf(QLatin1Char(';'), cmdSepIdx + 1);
    } while (cmdSepIdx >= 0 && quotedVector[cmdSepIdx]);
'''
ADDDEP = '''        const int firstNewDependent = descblock->m_dependents.count();
        descblock->m_dependents.append(dependents);
        descblock->expandFileNameMacrosForDependents();
        extractSyncPoints(descblock->m_dependents, firstNewDependent);
'''
MUTANTS += [
    m('ok-hash-while', HASH, '''    QList<int> toRemove;
    int commentIdx = line.indexOf(QLatin1Char('#'));
    while (commentIdx >= 0) {
        const bool escaped = commentIdx > 0 && line.at(commentIdx - 1) == QLatin1Char('^');
        if (escaped)
            toRemove.append(commentIdx - 1);
        else if (!quotedVector[commentIdx])
            break;
        commentIdx = line.indexOf(QLatin1Char('#'), commentIdx + 1);
    }
'''),
    m('ok-sep-scan', SEP, '''    int cmdSepIdx = -1;
    for (int i = 0; i < line.length(); ++i) {
        if (line.at(i) == QLatin1Char(';') && !quotedVector[i]) {
            cmdSepIdx = i;
            break;
        }
    }
'''),
    m('ok-hash-scan', HASH, '''    int commentIdx = -1;
    QList<int> toRemove;
    for (int i = 0; i < line.length(); ++i) {
        if (line.at(i) != QLatin1Char('#'))
            continue;
        if (i > 0 && line.at(i - 1) == QLatin1Char('^')) {
            toRemove.append(i - 1);
        } else if (!quotedVector[i]) {
            commentIdx = i;
            break;
        }
    }
'''),
    ('ok-vec-helper', C, [(P, '''    QVector<bool> quotedVector(line.length());
    quotedVector[0] = (line.at(0) == QLatin1Char('"'));
    for (int i=1; i < line.length(); ++i) {
        bool isInDoubleQuote = quotedVector[i-1];
        if (line.at(i) == QLatin1Char('"'))
            isInDoubleQuote = !isInDoubleQuote;
        quotedVector[i] = isInDoubleQuote;
    }
''', '''    const QVector<bool> quotedVector = findQuotedChars(line);
'''), (P, '''/**
 * Returns the index of the command separator or''', '''static QVector<bool> findQuotedChars(const QString &line)
{
    QVector<bool> quotedVector(line.length());
    quotedVector[0] = (line.at(0) == QLatin1Char('"'));
    for (int i=1; i < line.length(); ++i) {
        bool isInDoubleQuote = quotedVector[i-1];
        if (line.at(i) == QLatin1Char('"'))
            isInDoubleQuote = !isInDoubleQuote;
        quotedVector[i] = isInDoubleQuote;
    }
    return quotedVector;
}

/**
 * Returns the index of the command separator or''')]),
    ('ok-rem-helper', C, [(P, REM, '''    removeCarets(line, toRemove, cmdSepIdx);
'''), (P, '''/**
 * Returns the index of the command separator or''', '''static void removeCarets(QString &line, const QList<int> &toRemove, int &cmdSepIdx)
{
''' + REM + '''}

/**
 * Returns the index of the command separator or''')]),
    ('ok-dep-helper', C, [(P, ADDDEP, '''        addDependents(descblock, dependents);
'''), (P, '''void Parser::parseDescriptionBlock(int''', '''void Parser::addDependents(DescriptionBlock *descblock, const QStringList &dependents)
{
''' + ADDDEP + '''}

void Parser::parseDescriptionBlock(int'''), ('parser.h', '    void parseDescriptionBlock(', '    void addDependents(DescriptionBlock *descblock, const QStringList &dependents);\n    void parseDescriptionBlock(')]),
    ('ok-cmd-helper', C, [(P, READ, '''    readCommands(commands);
'''), (P, '''void Parser::parseDescriptionBlock(int''', '''void Parser::readCommands(QList<Command> &commands)
{
''' + READ + '''}

void Parser::parseDescriptionBlock(int'''), ('parser.h', '    void parseDescriptionBlock(', '    void readCommands(QList<Command> &commands);\n    void parseDescriptionBlock(')]),
    m('ok-len-const', LEN, '''    const bool twoColons = idx < lineLength && m_line.at(idx) == QLatin1Char(':');
    separatorLength = twoColons ? 2 : 1;
'''),
    m('ok-block-iter', '    foreach (const QString& t, targets) {\n        if (t == QStringLiteral', '    for (QStringList::const_iterator ti = targets.constBegin(); ti != targets.constEnd(); ++ti) {\n        const QString &t = *ti;\n        if (t == QStringLiteral'),
    m('ok-block-range', '    foreach (const QString& t, targets) {\n        if (t == QStringLiteral', '    for (const QString &t : targets) {\n        if (t == QStringLiteral'),
    m('ok-value-const', VAL, '''    const int valueBegin = separatorPos + separatorLength;
    QString value = commandSeparatorPos >= 0 ? m_line.left(commandSeparatorPos) : m_line;
    value.remove(0, valueBegin);
'''),
]
