M='makefile.cpp'
MUTANTS=[
 ('nocmds-if-dep',['C01'],[(M,"""    if (!target->m_dependents.contains(inferredDependent))
        target->m_dependents.append(inferredDependent);
    target->m_commands = rule->m_commands;
""","""    if (target->m_dependents.contains(inferredDependent))
        return;
    target->m_dependents.append(inferredDependent);
    target->m_commands = rule->m_commands;
""")]),
 ('early-clear',['C01'],[(M,"""    QVector<InferenceRule *> rules = target->m_inferenceRules;
    filterRulesByDependent""","""    QVector<InferenceRule *> rules = target->m_inferenceRules;
    target->m_inferenceRules.clear();
    filterRulesByDependent""")]),
 ('ok-clear-order',['C01'],[(M,"""    target->m_inferenceRules.clear();
    //qDebug() << "----> applyInferenceRule for" << target->targetName();
""",""),(M,"""    target->m_commands = rule->m_commands;
""","""    target->m_commands = rule->m_commands;
    target->m_inferenceRules.clear();
""")]),
 ('ok-batch-index',['C01'],[(M,"""    foreach (DescriptionBlock *target, batch) {
        target->m_inferenceRules.clear();""","""    for (int i = 0; i < batch.count(); ++i) {
        DescriptionBlock *target = batch.at(i);
        target->m_inferenceRules.clear();""")]),
]
