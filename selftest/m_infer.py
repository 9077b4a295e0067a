P, M, D = 'parser.cpp', 'makefile.cpp', 'dependencygraph.cpp'
C = ['C32']
MUTANTS = [
    ('pattern-one-colon', C, [(P, '(:{1,2})\\\\s*', '(:)\\\\s*')]),
    ('pattern-no-blanks', C, [(P, '(:{1,2})\\\\s*', '(:{1,2})')]),
    ('pattern-anything', C, [(P, '(:{1,2})\\\\s*', '(:{1,2}).*')]),
    ('pattern-ext-letters', C, [(P, '(\\\\.\\\\w+)(:{1,2})', '(\\\\.[a-z]+)(:{1,2})')]),
    ('pattern-topath-lost', C, [(P, '(\\\\{.*\\\\})?(\\\\.\\\\w+)(:{1,2})', '(\\\\{\\\\w*\\\\})?(\\\\.\\\\w+)(:{1,2})')]),
    ('match-start-only', C, [(P, 'return m_rexInferenceRule.exactMatch(line);', 'return m_rexInferenceRule.indexIn(line) == 0;')]),
    ('line-with-comment', C, [(P, '} else if (isInferenceRule(uncommentedLine)) {', '} else if (isInferenceRule(expandedLine)) {')]),
    ('line-raw', C, [(P, 'QString uncommentedLine = expandedLine;', 'QString uncommentedLine = m_line;')]),
    ('dot-with-comment', C, [(P, '} else if (isDotDirective(uncommentedLine)) {', '} else if (isDotDirective(expandedLine)) {')]),
    ('fields-ext-swapped', C, [(P, 'rule->m_fromExtension = fromExt;', 'rule->m_fromExtension = toExt;')]),
    ('fields-path-swapped', C, [(P, 'rule->m_fromSearchPath = fromPath;', 'rule->m_fromSearchPath = toPath;')]),
    ('fields-cap3', C, [(P, 'QString toPath   = m_rexInferenceRule.cap(3);', 'QString toPath   = m_rexInferenceRule.cap(1);')]),
    ('fields-batch', C, [(P, 'm_rexInferenceRule.cap(5).length() > 1;', 'm_rexInferenceRule.cap(5).length() > 0;')]),
    ('fields-batch-never', C, [(P, 'm_rexInferenceRule.cap(5).length() > 1;', 'm_rexInferenceRule.cap(5).length() > 2;')]),
    ('fields-brace-left', C, [(P, 'toPath = toPath.mid(1, toPath.length() - 2);', 'toPath = toPath.mid(1, toPath.length() - 1);')]),
    ('fields-no-dot', C, [(P, '''    if (toPath.isEmpty())
        toPath = QLatin1String(".");
''', '')]),
    ('fields-sep-left', C, [(P, '    removeDirSeparatorAtEnd(toPath);\n', '')]),
    ('fields-sep-first', C, [(P, '''    if (fromPath.length() >= 2)
        fromPath =''', '''    removeDirSeparatorAtEnd(fromPath);
    if (fromPath.length() >= 2)
        fromPath =''' ), (P, '''    removeDirSeparatorAtEnd(fromPath);
    removeDirSeparatorAtEnd(toPath);
''', '''    removeDirSeparatorAtEnd(toPath);
''')]),
    ('fields-only-two', C, [(P, '    if (fromPath.length() >= 2)\n', '    if (fromPath.length() > 3)\n')]),
    ('fields-commands-expanded', C, [(P, 'parseCommand(rule->m_commands, true)', 'parseCommand(rule->m_commands, false)')]),
    ('add-skip-empty', C, [(P, '    m_makefile->addInferenceRule(rule);', '    if (!rule->m_commands.isEmpty())\n        m_makefile->addInferenceRule(rule);')]),
    ('add-prepend', C, [(M, '    m_inferenceRules.append(rule);', '    m_inferenceRules.prepend(rule);')]),
    ('suffixes-replace', C, [(P, '            m_suffixes.append(splitvalues);', '            m_suffixes = splitvalues;')]),
    ('suffixes-no-clear', C, [(P, '''        if (splitvalues.isEmpty())
            m_suffixes.clear();
        else
''', '')]),
    ('suffixes-clear-first', C, [(P, '''        if (splitvalues.isEmpty())
            m_suffixes.clear();
        else
''', '        m_suffixes.clear();\n')]),
    ('suffixes-default', C, [(P, '''               << QLatin1String(".c")
               << QLatin1String(".cpp")''', '''               << QLatin1String(".cpp")
               << QLatin1String(".c")''')]),
    ('suffixes-kept', C, [(P, '    m_suffixes.clear();\n    m_suffixes <<', '    m_suffixes <<')]),
    ('suffixes-in-silent', C, [(P, '        m_silentCommands = true;\n', '        m_silentCommands = true;\n        m_suffixes.clear();\n')]),
    ('prio-no-break', C, [(M, '                rule->m_priority = i;\n                break;', '                rule->m_priority = i;')]),
    ('prio-to-ext', C, [(M, 'rule->m_fromExtension.compare(suffixes.at(i)', 'rule->m_toExtension.compare(suffixes.at(i)')]),
    ('prio-case', C, [(M, 'suffixes.at(i), Qt::CaseInsensitive)', 'suffixes.at(i), Qt::CaseSensitive)')]),
    ('prio-from-one', C, [(M, 'for (int i=0; i < suffixes.count(); ++i) {\n            if (rule', 'for (int i=1; i < suffixes.count(); ++i) {\n            if (rule')]),
    ('prio-plus-one', C, [(M, 'rule->m_priority = i;', 'rule->m_priority = i - 1;')]),
    ('prio-return', C, [(M, '                rule->m_priority = i;\n                break;', '                rule->m_priority = i;\n                return;')]),
    ('prio-only-new', C, [(M, '        InferenceRule *rule = *it;\n        for', '        InferenceRule *rule = *it;\n        if (rule->m_batchMode) break;\n        for')]),
    ('order-append', C, [(P, '[ir->m_toExtension].prepend(ir);', '[ir->m_toExtension].append(ir);')]),
    ('order-key', C, [(P, 'm_ruleIdxByToExtension[ir->m_toExtension]', 'm_ruleIdxByToExtension[ir->m_fromExtension]')]),
    ('order-skip-batch', C, [(P, '        m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);', '        if (!ir->m_batchMode)\n            m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);')]),
    ('order-not-first', C, [(P, 'inferenceRules().count(); --i >= 0;', 'inferenceRules().count(); --i > 0;')]),
    ('order-prio-late', C, [(P, '    m_makefile->calculateInferenceRulePriorities(m_suffixes);\n', ''), (P, '    // check for cycles in active targets', '    m_makefile->calculateInferenceRulePriorities(m_suffixes);\n    // check for cycles in active targets')]),
    ('order-first-active', C, [(P, '        preselectInferenceRules(target);\n    }\n    // reset', '        preselectInferenceRules(target);\n        break;\n    }\n    // reset')]),
    ('order-active-with-commands', C, [(P, '        preselectInferenceRules(target);\n    }\n    // reset', '        if (target->m_commands.isEmpty())\n            preselectInferenceRules(target);\n    }\n    // reset')]),
    ('match-case', C, [(P, 'targetFilePath.endsWith(toExtension, Qt::CaseInsensitive)', 'targetFilePath.endsWith(toExtension)')]),
    ('match-first-ext', C, [(P, '            rules.append(rule);\n        }\n    }', '            rules.append(rule);\n        }\n        break;\n    }')]),
    ('match-first-rule', C, [(P, '            rules.append(rule);\n        }\n    }', '            rules.append(rule);\n            break;\n        }\n    }')]),
    ('match-prio-zero', C, [(P, 'if (rule->m_priority < 0)', 'if (rule->m_priority <= 0)')]),
    ('match-prio-any', C, [(P, '            if (rule->m_priority < 0)\n                continue;\n', '')]),
    ('match-dir-any', C, [(P, '            if (directory != rule->m_toSearchPath)\n                continue;\n', '')]),
    ('match-dir-from', C, [(P, 'if (directory != rule->m_toSearchPath)', 'if (directory != rule->m_fromSearchPath)')]),
    ('match-dir-only-dot', C, [(P, 'if (directory != rule->m_toSearchPath)', 'if (rule->m_toSearchPath != QLatin1String(".") && directory != rule->m_toSearchPath)')]),
    ('match-no-dot', C, [(P, "            if (directory.isEmpty())\n                directory = QLatin1Char('.');\n", '')]),
    ('match-sep-left', C, [(P, '            removeDirSeparatorAtEnd(directory);\n', '')]),
    ('match-left-1', C, [(P, 'targetFilePath.left(targetFilePath.length() - fileName.length());', 'targetFilePath.left(targetFilePath.length() - fileName.length() - 2);')]),
    ('match-prepend', C, [(P, '            rules.append(rule);', '            rules.prepend(rule);')]),
    ('match-batch', C, [(P, '            if (rule->m_priority < 0)', '            if (rule->m_priority < 0 || rule->m_commands.isEmpty())')]),
    ('select-with-commands', C, [(P, '    if (target->m_commands.isEmpty()) {\n        QVector', '    {\n        QVector')]),
    ('select-no-dependents', C, [(P, '    if (target->m_commands.isEmpty()) {\n        QVector', '    if (target->m_commands.isEmpty() && target->m_dependents.isEmpty()) {\n        QVector')]),
    ('select-target', C, [(P, '        DescriptionBlock *dependent = dependentTarget(dependentName);\n        if (dependent) {\n            preselect', '        DescriptionBlock *dependent = m_makefile->target(dependentName);\n        if (dependent) {\n            preselect')]),
    ('select-quotes', C, [(P, '            removeDoubleQuotes(dependentFileName);\n', '')]),
    ('select-quotes-target', C, [(P, 'dependent = createTarget(dependentFileName);', 'dependent = createTarget(dependentName);')]),
    ('select-not-recursive', C, [(P, '            preselectInferenceRules(dependent);\n', '            if (dependent->m_commands.isEmpty())\n                preselectInferenceRules(dependent);\n')]),
    ('select-first-dependent', C, [(P, '                dependent->m_inferenceRules = rules;\n            }\n        }\n', '                dependent->m_inferenceRules = rules;\n                break;\n            }\n        }\n')]),
    ('select-own-to-dependent', C, [(P, '                dependent->m_inferenceRules = rules;\n            }\n        }\n    }\n\n    target->m_bInf', '                dependent->m_inferenceRules = target->m_inferenceRules;\n            }\n        }\n    }\n\n    target->m_bInf')]),
    ('select-no-mark', C, [(P, '    target->m_bInferenceRulesPreselected = true;\n', '')]),
    ('filter-exists-dir', C, [(M, 'QString dependentName = rule->m_fromSearchPath + QDir::separator() +\n                                baseName + rule->m_fromExtension;', 'QString dependentName = baseName + rule->m_fromExtension;')]),
    ('filter-chop-from', C, [(M, 'baseName.chop(rule->m_toExtension.length());', 'baseName.chop(rule->m_fromExtension.length());')]),
    ('filter-target-enough', C, [(M, 'if ((depTarget && depTarget->m_bFileExists) || QFile', 'if (depTarget || QFile')]),
    ('filter-not-target', C, [(M, 'if ((depTarget && depTarget->m_bFileExists) || QFile::exists(dependentName)) {', 'if (depTarget && QFile::exists(dependentName)) {')]),
    ('filter-first', C, [(M, '            ++it;\n            continue;', '            ++it;\n            break;')]),
    ('filter-to-ext', C, [(M, 'baseName + rule->m_fromExtension;', 'baseName + rule->m_toExtension;')]),
    ('choose-first', C, [(M, 'matchingRule = rules.last();', 'matchingRule = rules.first();')]),
    ('choose-less', C, [(M, 'lhs->m_priority > rhs->m_priority', 'lhs->m_priority < rhs->m_priority')]),
    ('choose-ge', C, [(M, 'lhs->m_priority > rhs->m_priority', 'lhs->m_priority >= rhs->m_priority')]),
    ('choose-unstable', C, [(M, 'std::stable_sort(rules', 'std::sort(rules')]),
    ('choose-unsorted', C, [(M, '    std::stable_sort(rules.begin(), rules.end(), &infRulesPriorityGreaterThan);\n', '')]),
    ('choose-filter-own', C, [(M, '    filterRulesByDependent(rules, target->targetName());', '    filterRulesByDependent(target->m_inferenceRules, target->targetName());\n    rules = target->m_inferenceRules;')]),
    ('choose-drop-none', C, [(M, '    if (rules.isEmpty()) {\n', '    if (rules.isEmpty()) {\n        target->m_inferenceRules.clear();\n')]),
    ('choose-not-cleared', C, [(M, '    applyInferenceRule(target, matchingRule);\n    target->m_inferenceRules.clear();', '    applyInferenceRule(target, matchingRule);')]),
    ('choose-only-empty', C, [(M, '    if (rules.isEmpty()) {\n', '    if (rules.isEmpty() || !target->m_dependents.isEmpty()) {\n')]),
    ('name-chop', C, [(M, '    dependent.chop(m_toExtension.length());', '    dependent.chop(m_fromExtension.length());')]),
    ('name-no-sep', C, [(M, '        dependent.prepend(m_fromSearchPath + QDir::separator());', '        dependent.prepend(m_fromSearchPath);')]),
    ('name-base', C, [(M, 'QString dependent = QFileInfo(targetName).fileName();', 'QString dependent = targetName;')]),
    ('name-to-path', C, [(M, '    if (m_fromSearchPath != QLatin1String("."))', '    if (m_toSearchPath != QLatin1String("."))')]),
    ('name-never-path', C, [(M, '        dependent.prepend(m_fromSearchPath + QDir::separator());', '        dependent.prepend(m_toSearchPath + QDir::separator());')]),
    ('apply-batch-always', C, [(M, 'm_options->batchModeEnabled && rule->m_batchMode', 'rule->m_batchMode')]),
    ('apply-batch-all', C, [(M, 'm_options->batchModeEnabled && rule->m_batchMode', 'm_options->batchModeEnabled')]),
    ('apply-no-rule-entry', C, [(M, '        m_batchModeRules.insert(rule);\n', '')]),
    ('apply-no-dependent', C, [(M, '    if (!target->m_dependents.contains(inferredDependent))\n        target->m_dependents.append(inferredDependent);\n    target', '    target')]),
    ('apply-if-none', C, [(M, '    if (!target->m_dependents.contains(inferredDependent))\n        target->m_dep', '    if (target->m_dependents.isEmpty())\n        target->m_dep')]),
    ('apply-twice', C, [(M, '    if (!target->m_dependents.contains(inferredDependent))\n        target->m_dep', '    target->m_dep')]),
    ('apply-commands-add', C, [(M, '    target->m_commands = rule->m_commands;', '    if (!rule->m_commands.isEmpty()) target->m_commands = rule->m_commands;')]),
    ('batch-dep-own', C, [(M, '        if (!executingTarget->m_dependents.contains(inferredDependent))\n            executingTarget->', '        if (!target->m_dependents.contains(inferredDependent))\n            target->')]),
    ('batch-last', C, [(M, 'executingTarget = batch.first();', 'executingTarget = batch.last();')]),
    ('batch-rules-stay', C, [(M, '        target->m_inferenceRules.clear();\n        QString', '        QString')]),
    ('batch-size', C, [(M, 'qMax(1, qRound(', 'qMax(0, qRound(')]),
    ('batch-rest', C, [(M, '} while (!allBatchTargets.isEmpty());', '} while (allBatchTargets.count() > filesPerBatch);')]),
    ('batch-not-cleared', C, [(M, '        m_batchModeTargets.clear();\n', '')]),
    ('batch-lost', C, [(M, '                    batch.append( allBatchTargets.takeFirst() );', '                    { DescriptionBlock *t = allBatchTargets.takeFirst(); if (!batch.contains(t) && t->m_bFileExists) batch.append(t); }')]),
    ('batch-one', C, [(M, '            do {\n                QList', '            {\n                QList'), (M, '            } while (!allBatchTargets.isEmpty());', '            }')]),
    ('probe-deps', C, [(D, '        target->m_dependents = savedDependents;\n', '')]),
    ('probe-rules', C, [(D, '        target->m_inferenceRules = savedRules;\n', '')]),
    ('probe-only-added', C, [(D, '''        if (inferredDependentAdded)
            isUpToDate = isTargetUpToDate(target);

        target->m_dependents = savedDependents;
''', '''        if (inferredDependentAdded) {
            isUpToDate = isTargetUpToDate(target);
            if (isUpToDate)
                target->m_dependents = savedDependents;
        }
''')]),
    ('probe-return', C, [(D, '            isUpToDate = isTargetUpToDate(target);\n', '            return isTargetUpToDate(target);\n')]),

    ('ok-pattern-plus', C, [(P, '(:{1,2})\\\\s*', '(::?)\\\\s*')]),
    ('ok-fields-direct', C, [(P, "    QString fromExt  = m_rexInferenceRule.cap(2);\n", ''), (P, 'rule->m_fromExtension = fromExt;', 'rule->m_fromExtension = m_rexInferenceRule.cap(2);')]),
    ('ok-fields-batch-eq', C, [(P, 'm_rexInferenceRule.cap(5).length() > 1;', 'm_rexInferenceRule.cap(5) == QLatin1String("::");')]),
    ('ok-fields-order', C, [(P, '''    rule->m_batchMode = batchMode;
    rule->m_fromSearchPath = fromPath;
''', '''    rule->m_fromSearchPath = fromPath;
    rule->m_batchMode = batchMode;
''')]),
    ('ok-fields-helper', C, [(P, 'void Parser::parseInferenceRule()\n{', '''static void normalizePath(QString &path)
{
    if (path.length() >= 2)
        path = path.mid(1, path.length() - 2);
    if (path.isEmpty())
        path = QLatin1String(".");
    removeDirSeparatorAtEnd(path);
}

void Parser::parseInferenceRule()
{'''), (P, '''    if (fromPath.length() >= 2)
        fromPath = fromPath.mid(1, fromPath.length() - 2);
    if (toPath.length() >= 2)
        toPath = toPath.mid(1, toPath.length() - 2);
    if (fromPath.isEmpty())
        fromPath = QLatin1String(".");
    if (toPath.isEmpty())
        toPath = QLatin1String(".");
''', '''    normalizePath(fromPath);
    normalizePath(toPath);
'''), (P, '''    removeDirSeparatorAtEnd(fromPath);
    removeDirSeparatorAtEnd(toPath);
''', '')]),
    ('ok-fields-late', C, [(P, '    InferenceRule *rule = new InferenceRule();\n', '    InferenceRule *const rule = new InferenceRule;\n')]),
    ('ok-commands-loop', C, [(P, '    while (parseCommand(rule->m_commands, true))\n        readLine();', '    for (; parseCommand(rule->m_commands, true); readLine())\n        ;')]),
    ('ok-suffixes-plus', C, [(P, '            m_suffixes.append(splitvalues);', '            m_suffixes += splitvalues;')]),
    ('ok-suffixes-not', C, [(P, '''        if (splitvalues.isEmpty())
            m_suffixes.clear();
        else
            m_suffixes.append(splitvalues);
''', '''        if (!splitvalues.isEmpty())
            m_suffixes.append(splitvalues);
        else
            m_suffixes.clear();
''')]),
    ('ok-suffixes-append', C, [(P, '''    m_suffixes << QLatin1String(".exe")
               << QLatin1String(".obj")''', '''    m_suffixes.append(QLatin1String(".exe"));
    m_suffixes << QLatin1String(".obj")''')]),
    ('ok-prio-foreach', C, [(M, '''    QVector<InferenceRule *>::iterator it = m_inferenceRules.begin();
    for (; it != m_inferenceRules.end(); ++it) {
        InferenceRule *rule = *it;
        for (int i=0''', '''    foreach (InferenceRule *rule, m_inferenceRules) {
        for (int i=0''')]),
    ('ok-prio-index', C, [(M, '''    QVector<InferenceRule *>::iterator it = m_inferenceRules.begin();
    for (; it != m_inferenceRules.end(); ++it) {
        InferenceRule *rule = *it;
        for (int i=0; i < suffixes.count(); ++i) {
            if (rule->m_fromExtension.compare(suffixes.at(i), Qt::CaseInsensitive) == 0) {''', '''    for (int k = 0; k < m_inferenceRules.count(); ++k) {
        InferenceRule *rule = m_inferenceRules.at(k);
        const int n = suffixes.count();
        for (int i=0; i < n; ++i) {
            const QString &suffix = suffixes.at(i);
            if (suffix.compare(rule->m_fromExtension, Qt::CaseInsensitive) == 0) {''')]),
    ('ok-prio-while', C, [(M, '''        for (int i=0; i < suffixes.count(); ++i) {
            if (rule->m_fromExtension.compare(suffixes.at(i), Qt::CaseInsensitive) == 0) {
                rule->m_priority = i;
                break;
            }
        }''', '''        int i = 0;
        while (i < suffixes.count()) {
            if (rule->m_fromExtension.compare(suffixes.at(i), Qt::CaseInsensitive) == 0) {
                rule->m_priority = i;
                break;
            }
            ++i;
        }''')]),
    ('ok-order-up', C, [(P, '''    for (int i = m_makefile->inferenceRules().count(); --i >= 0;) {
        InferenceRule *ir = m_makefile->inferenceRules().at(i);
        m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);
    }''', '''    foreach (InferenceRule *ir, m_makefile->inferenceRules())
        m_ruleIdxByToExtension[ir->m_toExtension].append(ir);''')]),
    ('ok-match-nested', C, [(P, '''            if (rule->m_priority < 0)
                continue;

            QString fileName''', '''            if (!(rule->m_priority >= 0))
                continue;

            QString fileName'''), (P, '''            if (directory != rule->m_toSearchPath)
                continue;

            rules.append(rule);''', '''            if (directory == rule->m_toSearchPath)
                rules.append(rule);''')]),
    ('ok-match-hoisted', C, [(P, '''    QVector<InferenceRule *> rules;

    const QHash''', '''    QVector<InferenceRule *> rules;
    QString fileName = fileNameFromFilePath(targetFilePath);
    QString directory = targetFilePath.left(targetFilePath.length() - fileName.length());
    removeDirSeparatorAtEnd(directory);
    if (directory.isEmpty())
        directory = QLatin1Char('.');

    const QHash'''), (P, '''            QString fileName = fileNameFromFilePath(targetFilePath);
            QString directory = targetFilePath.left(targetFilePath.length() - fileName.length());
            removeDirSeparatorAtEnd(directory);
            if (directory.isEmpty())
                directory = QLatin1Char('.');
            if (directory''', '''            if (directory''')]),
    ('ok-match-helper', C, [(P, 'QVector<InferenceRule*> Parser::findRulesByTargetName(', '''static QString directoryOf(const QString &path)
{
    const QString fileName = fileNameFromFilePath(path);
    QString directory = path.left(path.length() - fileName.length());
    removeDirSeparatorAtEnd(directory);
    if (directory.isEmpty())
        directory = QLatin1Char('.');
    return directory;
}

QVector<InferenceRule*> Parser::findRulesByTargetName('''), (P, '''            QString fileName = fileNameFromFilePath(targetFilePath);
            QString directory = targetFilePath.left(targetFilePath.length() - fileName.length());
            removeDirSeparatorAtEnd(directory);
            if (directory.isEmpty())
                directory = QLatin1Char('.');
            if (directory != ''', '''            if (directoryOf(targetFilePath) != ''')]),
    ('ok-match-index', C, [(P, '        foreach (InferenceRule *rule, it.value()) {\n            if (rule->m_priority', '        const QVector<InferenceRule *> &candidates = it.value();\n        for (int i = 0; i < candidates.count(); ++i) {\n            InferenceRule *rule = candidates.at(i);\n            if (rule->m_priority')]),
    ('ok-select-index', C, [(P, '''    foreach (const QString &dependentName, target->m_dependents) {
        DescriptionBlock *dependent = dependentTarget''', '''    for (int i = 0; i < target->m_dependents.count(); ++i) {
        const QString dependentName = target->m_dependents.at(i);
        DescriptionBlock *dependent = dependentTarget''')]),
    ('ok-select-helper', C, [(P, 'void Parser::preselectInferenceRules(', '''static void assignRules(DescriptionBlock *block, const QVector<InferenceRule *> &rules)
{
    block->m_inferenceRules = rules;
}

void Parser::preselectInferenceRules('''), (P, '            target->m_inferenceRules = rules;\n    }\n\n    foreach', '            assignRules(target, rules);\n    }\n\n    foreach'), (P, '                dependent->m_inferenceRules = rules;', '                assignRules(dependent, rules);')]),
    ('ok-select-always', C, [(P, '        if (!rules.isEmpty())\n            target->m_inferenceRules = rules;\n', '        target->m_inferenceRules = rules;\n')]),
    ('ok-filter-copy', C, [(M, '''    QVector<InferenceRule*>::iterator it = rules.begin();
    while (it != rules.end()) {
        const InferenceRule* rule = *it;
''', '''    QVector<InferenceRule*> kept;
    foreach (InferenceRule *rule, rules) {
'''), (M, '''            ++it;
            continue;
        }

        it = rules.erase(it);
    }    
''', '''            kept.append(rule);
        }
    }
    rules = kept;
''')]),
    ('ok-filter-else', C, [(M, '''            ++it;
            continue;
        }

        it = rules.erase(it);
''', '''            ++it;
        } else {
            it = rules.erase(it);
        }
''')]),
    ('ok-filter-index', C, [(M, '''    QVector<InferenceRule*>::iterator it = rules.begin();
    while (it != rules.end()) {
        const InferenceRule* rule = *it;
''', '''    for (int i = rules.count(); --i >= 0;) {
        const InferenceRule* rule = rules.at(i);
'''), (M, '''            ++it;
            continue;
        }

        it = rules.erase(it);
''', '''            continue;
        }

        rules.remove(i);
''')]),
    ('ok-filter-bool', C, [(M, '''        if ((depTarget && depTarget->m_bFileExists) || QFile::exists(dependentName)) {''', '''        const bool exists = (depTarget && depTarget->m_bFileExists) || QFile::exists(dependentName);
        if (exists) {''')]),
    ('ok-choose-not', C, [(M, '''    if (rules.isEmpty()) {
        //qDebug() << "XXX" << target->m_targetName << "no matching inference rule found.";
        return;
    }

    // take the last matching inference rule
    const InferenceRule* matchingRule = rules.last();
    applyInferenceRule(target, matchingRule);
    target->m_inferenceRules.clear();''', '''    if (!rules.isEmpty()) {
        applyInferenceRule(target, rules.last());
        target->m_inferenceRules.clear();
    }''')]),
    ('ok-choose-cmp', C, [(M, 'return lhs->m_priority > rhs->m_priority;', 'return rhs->m_priority < lhs->m_priority;')]),
    ('ok-name-plus', C, [(M, '    dependent.append(m_fromExtension);', '    dependent += m_fromExtension;')]),
    ('ok-name-return', C, [(M, '''    if (m_fromSearchPath != QLatin1String("."))
        dependent.prepend(m_fromSearchPath + QDir::separator());

    return dependent;''', '''    if (m_fromSearchPath == QLatin1String("."))
        return dependent;
    return m_fromSearchPath + QDir::separator() + dependent;''')]),
    ('ok-apply-early', C, [(M, '''    if (!applyingBatchMode && m_options->batchModeEnabled && rule->m_batchMode) {
        m_batchModeRules.insert(rule);
        m_batchModeTargets.insert(rule, target);
        return;
    }
''', '''    const bool collect = m_options->batchModeEnabled && rule->m_batchMode;
    if (collect && !applyingBatchMode) {
        m_batchModeTargets.insert(rule, target);
        m_batchModeRules.insert(rule);
        return;
    }
''')]),
    ('ok-batch-while', C, [(M, '''            do {
                QList''', '''            while (!allBatchTargets.isEmpty()) {
                QList'''), (M, '            } while (!allBatchTargets.isEmpty());', '            }')]),
    ('ok-batch-stream', C, [(M, 'batch.append( allBatchTargets.takeFirst() );', 'batch << allBatchTargets.takeFirst();')]),
    ('ok-probe-order', C, [(D, '''        target->m_dependents = savedDependents;
        target->m_inferenceRules = savedRules;
''', '''        target->m_inferenceRules = savedRules;
        target->m_dependents = savedDependents;
''')]),
    ('ok-probe-const', C, [(D, 'QStringList savedDependents = target->m_dependents;', 'const QStringList savedDependents(target->m_dependents);')]),
]
