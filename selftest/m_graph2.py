D='dependencygraph.cpp'; T='targetexecutor.cpp'; P='parser.cpp'
MUTANTS = [
 ('c02-nomark',['C02'],[(D,"            if (leaf->state != Node::Unbuildable)\n                leaf->state = Node::ExecutingState;","            if (leaf->state != Node::Unbuildable && !ignoreTimeStamps)\n                leaf->state = Node::ExecutingState;")]),
 ('c02-always',['C02'],[(D,"        if (leaf->state != Node::ExecutingState) {\n            if (leaf","        if (leaf->state != Node::ExecutingState || m_leaves.count() == 1) {\n            if (leaf")]),
 ('c02-dupnode',['C02'],[(D,"        if (child)\n            addEdge(node, child);\n        else","        if (child && !child->children.isEmpty())\n            addEdge(node, child);\n        else")]),
 ('c02-noreset',['C02'],[(T,"        executor->start(m_nextTarget);\n        m_nextTarget = 0;","        executor->start(m_nextTarget);\n        if (m_jobAcquisitionCount > 0) m_nextTarget = 0;")]),
 ('c02-acq',['C02'],[(T,"if (m_bAborted || m_jobClient->isAcquiring() || m_avail","if (m_bAborted || m_avail")]),
 ('c02-lost',['C02'],[(T,"        if (!m_nextTarget)\n            findNextTarget();","        findNextTarget();")]),
 ('c02-noclear',['C02'],[(T,"                    m_depgraph->clear();\n                    m_makefile->inv","                    m_makefile->inv")]),
 ('c02-unmark',['C02'],[(D,"        parent->children.removeOne(node);","        parent->children.removeOne(node);\n        if (parent->state == Node::ExecutingState) parent->state = Node::UnknownState;")]),
 ('ok-c02-local',['C02','C01'],[(D,"            displayNodeBuildInfo(leaf, ignoreTimeStamps ? isTargetUpToDate(leaf->target) : false);\n            return leaf->target;","            DescriptionBlock *const result = leaf->target;\n            displayNodeBuildInfo(leaf, ignoreTimeStamps ? isTargetUpToDate(result) : false);\n            return result;")]),
 ('ok-c02-cont',['C02','C01'],[(D,"""        if (leaf->state != Node::ExecutingState) {
            if (leaf->state != Node::Unbuildable)
                leaf->state = Node::ExecutingState;
            displayNodeBuildInfo(leaf, ignoreTimeStamps ? isTargetUpToDate(leaf->target) : false);
            return leaf->target;
        }
""","""        if (leaf->state == Node::ExecutingState)
            continue;
        if (leaf->state != Node::Unbuildable)
            leaf->state = Node::ExecutingState;
        displayNodeBuildInfo(leaf, ignoreTimeStamps ? isTargetUpToDate(leaf->target) : false);
        return leaf->target;
""")]),
 ('ok-c02-start',['C02','C01'],[(T,"        executor->start(m_nextTarget);\n        m_nextTarget = 0;","        DescriptionBlock *const t = m_nextTarget;\n        m_nextTarget = 0;\n        executor->start(t);")]),
 ('ok-c02-insert',['C02','C01'],[(D,"    m_nodeContainer[target] = node;","    m_nodeContainer.insert(target, node);")]),
 ('ok-c02-early',['C02','C01','C10'],[(D,"        Node* child = m_nodeContainer.value(dependent);\n        if (child)\n            addEdge(node, child);\n        else\n            child = createNode(dependent, node);","        Node* child = m_nodeContainer.value(dependent, 0);\n        if (!child) {\n            child = createNode(dependent, node);\n        } else {\n            addEdge(node, child);\n        }")]),
 ('c09-nofollow',['C09'],[(P,"    for (int i = target->m_dependents.count(); --i >= 0;) {\n        DescriptionBlock *const dep = dependentTarget(target->m_dependents.at(i));\n        checkForCycles(dep);","    for (int i = target->m_dependents.count(); --i > 0;) {\n        DescriptionBlock *const dep = dependentTarget(target->m_dependents.at(i));\n        checkForCycles(dep);")]),
 ('c09-cmds',['C09'],[(P,"        checkForCycles(dep);\n    }\n    target->m_bV","        if (dep && !dep->m_commands.isEmpty())\n            checkForCycles(dep);\n    }\n    target->m_bV")]),
 ('c09-memo',['C09'],[(P,"    target->m_bVisitedByCycleCheck = true;","    target->m_bVisitedByCycleCheck = true;\n    target->m_bNoCyclesRootedHere = target->m_dependents.count() < 2;")]),
 ('c09-order',['C09'],[(P,"        checkForCycles(target);\n        preselect","        checkForCycles(target);\n        target->m_dependents.removeDuplicates();\n        target->m_dependents += m_syncPoints.value(targetName);\n        preselect")]),
 ('c09-break',['C09'],[(P,"        checkForCycles(target);\n        preselectInferenceRules(target);","        checkForCycles(target);\n        preselectInferenceRules(target);\n        if (target->m_dependents.isEmpty()) break;")]),
 ('c09-quiet',['C09'],[(P,"    if (target->m_bVisitedByCycleCheck) {","    if (target->m_bVisitedByCycleCheck && target->m_commands.isEmpty()) {")]),
 ('c09-alias',['C09'],[(P,"    if (!result)\n        result = m_makefile->target(m_makefile->dirPath() + QDir","    if (!result && m_makefile->targets().isEmpty())\n        result = m_makefile->target(m_makefile->dirPath() + QDir")]),
 ('ok-c09-fwd',['C09'],[(P,"    for (int i = target->m_dependents.count(); --i >= 0;) {\n        DescriptionBlock *const dep = dependentTarget(target->m_dependents.at(i));\n        checkForCycles(dep);","    foreach (const QString &name, target->m_dependents) {\n        DescriptionBlock *const dep = dependentTarget(name);\n        if (dep)\n            checkForCycles(dep);")]),
 ('ok-c09-inl',['C09'],[(P,"    if (target->m_bNoCyclesRootedHere)\n        return;\n","    if (target->m_bNoCyclesRootedHere) {\n        return;\n    }\n    const int n = target->m_dependents.count();\n    Q_UNUSED(n);\n")]),
 ('c10-0',['C10'],[(D,"exit(2);","exit(node->parents.isEmpty() ? 2 : 0);")]),
 ('c10-or',['C10'],[(D,"if (!FastFileInfo(dependentName).exists()) {","if (!FastFileInfo(dependentName).exists() && node->target->m_inferenceRules.isEmpty()) {")]),
 ('c10-late',['C10'],[(T,"    m_depgraph->build(descblock);\n    if","    if (targets.count() > 1) QMetaObject::invokeMethod(this, \"startProcesses\", Qt::QueuedConnection);\n    m_depgraph->build(descblock);\n    if")]),
]
