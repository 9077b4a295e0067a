P='parser.cpp'
C=['C11']
COLL='''    QStringList syncDeps;
    for (int i = k; i < dependents.count();) {
        if (dependents.at(i) == QLatin1String(".SYNC")) {
            dependents.removeAt(i);
            if (dependents.count() == i)
                break;
            syncDeps = dependents.mid(k, i - k);
        } else {
            m_syncPoints[dependents.at(i)] += syncDeps;
            ++i;
        }
    }
'''
TR='''        if (!target) {
            const QVector<InferenceRule *> rules = findRulesByTargetName(it.key());
            if (it.value().isEmpty() || rules.isEmpty())
                continue;
            target = createTarget(it.key());
            target->m_inferenceRules = rules;
        }
        target->m_dependents += it.value();
        target->m_dependents.removeDuplicates();
'''
MUTANTS=[
 ('break', C, [(P, "            if (it.value().isEmpty() || rules.isEmpty())\n                continue;", "            if (it.value().isEmpty() || rules.isEmpty())\n                break;")]),
 ('break-empty', C, [(P, "            if (it.value().isEmpty() || rules.isEmpty())\n                continue;", "            if (it.value().isEmpty())\n                break;\n            if (rules.isEmpty())\n                continue;")]),
 ('norules', C, [(P, TR, "        if (!target)\n            continue;\n        target->m_dependents += it.value();\n        target->m_dependents.removeDuplicates();\n")]),
 ('lastgroup', C, [(P, "            syncDeps = dependents.mid(k, i - k);\n", "            syncDeps = dependents.mid(k, i - k);\n            k = i;\n")]),
 ('lastgroup2', C, [(P, "            syncDeps = dependents.mid(k, i - k);\n", "            if (i > k) {\n                syncDeps = dependents.mid(k, i - k);\n                k = i;\n            }\n")]),
 ('mid-off', C, [(P, "dependents.mid(k, i - k)", "dependents.mid(k, i - k - 1)")]),
 ('mid-off2', C, [(P, "dependents.mid(k, i - k)", "dependents.mid(k + 1, i - k)")]),
 ('mid-off3', C, [(P, "dependents.mid(k, i - k)", "dependents.mid(i)")]),
 ('once', C, [(P, "            m_syncPoints[dependents.at(i)] += syncDeps;\n            ++i;", "            m_syncPoints[dependents.at(i)] += syncDeps;\n            syncDeps.clear();\n            ++i;")]),
 ('if-new', C, [(P, "            m_syncPoints[dependents.at(i)] += syncDeps;\n", "            if (!m_syncPoints.contains(dependents.at(i)))\n                m_syncPoints[dependents.at(i)] += syncDeps;\n")]),
 ('assign', C, [(P, "            m_syncPoints[dependents.at(i)] += syncDeps;\n", "            m_syncPoints[dependents.at(i)] = syncDeps;\n")]),
 ('noremove', C, [(P, "            dependents.removeAt(i);\n            if (dependents.count() == i)\n                break;", "            if (dependents.count() == ++i)\n                break;")]),
 ('removefirst', C, [(P, "            dependents.removeAt(i);\n            if (dependents.count() == i)\n                break;\n", "            dependents.removeAt(i);\n            ++i;\n            if (dependents.count() <= i)\n                break;\n")]),
 ('from1', C, [(P, "for (int i = k; i < dependents.count();) {", "for (int i = k + 1; i < dependents.count();) {")]),
 ('to-1', C, [(P, "for (int i = k; i < dependents.count();) {", "for (int i = k; i < dependents.count() - 1;) {")]),
 ('late-count', C, [(P, "        const int firstNewDependent = descblock->m_dependents.count();\n        descblock->m_dependents.append(dependents);\n", "        descblock->m_dependents.append(dependents);\n        const int firstNewDependent = descblock->m_dependents.count();\n")]),
 ('unexpanded', C, [(P, "        descblock->expandFileNameMacrosForDependents();\n        extractSyncPoints(descblock->m_dependents, firstNewDependent);\n", "        extractSyncPoints(descblock->m_dependents, firstNewDependent);\n        descblock->expandFileNameMacrosForDependents();\n")]),
 ('only-new', C, [(P, "        extractSyncPoints(descblock->m_dependents, firstNewDependent);\n", "        if (firstNewDependent == 0)\n            extractSyncPoints(descblock->m_dependents, firstNewDependent);\n")]),
 ('other-target', C, [(P, "        target->m_dependents += it.value();\n", "        m_makefile->firstTarget()->m_dependents += it.value();\n")]),
 ('append-key', C, [(P, "        target->m_dependents += it.value();\n", "        target->m_dependents += it.key();\n")]),
 ('no-cmds-only', C, [(P, "        target->m_dependents += it.value();\n", "        if (target->m_commands.isEmpty())\n            continue;\n        target->m_dependents += it.value();\n")]),
 ('no-deps-only', C, [(P, "        target->m_dependents += it.value();\n", "        if (!target->m_dependents.isEmpty())\n            continue;\n        target->m_dependents += it.value();\n")]),
 ('ok-continue', C, [(P, "        target->m_dependents += it.value();\n", "        if (it.value().isEmpty())\n            continue;\n        target->m_dependents += it.value();\n")]),
 ('ok-order', C, [(P, "            m_syncPoints[dependents.at(i)] += syncDeps;\n            ++i;", "            const QString &name = dependents.at(i++);\n            m_syncPoints[name] += syncDeps;")]),
 ('ok-while', C, [(P, "    for (int i = k; i < dependents.count();) {", "    int i = k;\n    while (i < dependents.count()) {")]),
 ('ok-copy', C, [(P, COLL, '''    QStringList others = dependents.mid(0, k);
    QStringList before;
    QStringList syncDeps;
    for (int i = k; i < dependents.count(); ++i) {
        const QString dependent = dependents.at(i);
        if (dependent == QLatin1String(".SYNC")) {
            syncDeps = before;
            continue;
        }
        m_syncPoints[dependent] += syncDeps;
        before.append(dependent);
        others.append(dependent);
    }
    dependents = others;
''')]),
 ('ok-not', C, [(P, COLL, '''    QStringList syncDeps;
    int i = k;
    while (i < dependents.count()) {
        if (dependents.at(i) != QLatin1String(".SYNC")) {
            m_syncPoints[dependents.at(i)] += syncDeps;
            i++;
            continue;
        }
        dependents.removeAt(i);
        syncDeps = dependents.mid(k, i - k);
    }
''')]),
 ('ok-helper', C, [(P, "    // translate sync points from .SYNC targets into real dependencies\n", "    translateSyncPoints();\n#if 0\n"),
   (P, "    // check for cycles in active targets\n", "#endif\n    // check for cycles in active targets\n"),
   (P, "MacroTable* Parser::macroTable()", '''void Parser::translateSyncPoints()
{
    foreach (const QString &name, m_syncPoints.keys()) {
        const QStringList before = m_syncPoints.value(name);
        if (before.isEmpty())
            continue;
        DescriptionBlock *target = dependentTarget(name);
        if (!target) {
            const QVector<InferenceRule *> rules = findRulesByTargetName(name);
            if (rules.isEmpty())
                continue;
            target = createTarget(name);
            target->m_inferenceRules = rules;
        }
        target->m_dependents += before;
        target->m_dependents.removeDuplicates();
    }
}

MacroTable* Parser::macroTable()'''), ('parser.h', "    void extractSyncPoints(", "    void translateSyncPoints();\n    void extractSyncPoints(")]),
 ('ok-early', C, [(P, "    // check for cycles in active targets\n", "    foreach (const QString& targetName, m_activeTargets)\n        checkForCycles(m_makefile->target(targetName));\n    // check for cycles in active targets\n"),]),
]
