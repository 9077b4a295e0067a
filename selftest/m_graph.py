D='dependencygraph.cpp'; T='targetexecutor.cpp'
MUTANTS = [
 ('noparentedge',['C01'],[(D,"""    if (!child->parents.contains(parent))
        child->parents.append(parent);""","""    if (!child->parents.contains(parent) && child->parents.isEmpty())
        child->parents.append(parent);""")]),
 ('breakinsteadofcontinue',['C01'],[(D,"""                exit(2);
            }
            continue;""","""                exit(2);
            }
            break;""")]),
 ('leafwithone',['C01'],[(D,"""        if (parent->children.isEmpty()) {
            m_bDirtyLeaves""","""        if (parent->children.count() <= 1) {
            m_bDirtyLeaves""")]),
 ('norecurse',['C01'],[(D,"""        if (child)
            addEdge(node, child);
        else
            child = createNode(dependent, node);

        internalBuild(child, seen);""","""        if (child) {
            addEdge(node, child);
        } else {
            child = createNode(dependent, node);
            if (!dependent->m_commands.isEmpty())
                internalBuild(child, seen);
        }""")]),
 ('skipexecuting',['C01'],[(D,"if (leaf->state != Node::ExecutingState && isTargetUpToDate","if (isTargetUpToDate")]),
 ('orcond',['C01'],[(D,"if (leaf->state != Node::ExecutingState && isTargetUpToDate(leaf->target))","if (leaf->state != Node::ExecutingState && (isTargetUpToDate(leaf->target) || leaf->target->m_bFileExists))")]),
 ('firstparent',['C01'],[(D,"""            m_leaves.append(parent);
        }
    }
    deleteNode""","""            m_leaves.append(parent);
            break;
        }
    }
    deleteNode""")]),
 ('retireearly',['C01'],[(T,"        executor->start(m_nextTarget);\n        m_nextTarget = 0;","        executor->start(m_nextTarget);\n        if (m_nextTarget->m_commands.isEmpty()) m_depgraph->removeLeaf(m_nextTarget);\n        m_nextTarget = 0;".replace('.isEmpty()','.count() == 1'))]),
 ('silentskip',['C01'],[(D,"""            if (!FastFileInfo(dependentName).exists()) {""","""            if (!FastFileInfo(dependentName).exists() && !node->target->m_commands.isEmpty()) {""")]),
 ('ok-iterloop',['C01'],[(D,"    foreach (Node* parent, node->parents) {\n        parent->children.removeOne(node);","    for (int i = 0; i < node->parents.count(); ++i) {\n        Node *parent = node->parents.at(i);\n        parent->children.removeOne(node);")]),
 ('ok-rangefor',['C01'],[(D,"foreach (const QString& dependentName, node->target->m_dependents) {\n        Makefile* const","for (const QString &dependentName : qAsConst(node->target->m_dependents)) {\n        Makefile* const")]),
 ('ok-helper',['C01'],[(D,"""        DescriptionBlock* dependent = makefile->target(dependentName);
        if (!dependent) {
            // We don't know dependent "foo" but it may have been defined as "C:\\MySourceDir\\foo"
            dependent = makefile->target(makefile->dirPath() + QDir::separator() + dependentName);
        }""","""        DescriptionBlock* dependent = findDep(makefile, dependentName);"""),(D,"void DependencyGraph::internalBuild(","""static DescriptionBlock *findDep(Makefile *makefile, const QString &name)
{
    if (DescriptionBlock *d = makefile->target(name))
        return d;
    return makefile->target(makefile->dirPath() + QDir::separator() + name);
}

void DependencyGraph::internalBuild(""")]),
 ('ok-seen',['C01'],[(D,"""    const int c = seen.count();
    seen << node;
    if (c == seen.count())
        return;
""","""    if (seen.contains(node))
        return;
    seen.insert(node);
""")]),
 ('ok-removefirst',['C01'],[(D,"""            foreach (Node *leaf, upToDateNodes) {
                displayNodeBuildInfo(leaf, true);
                removeLeaf(leaf);
            }
            upToDateNodes.clear();""","""            while (!upToDateNodes.isEmpty()) {
                Node *leaf = upToDateNodes.takeFirst();
                displayNodeBuildInfo(leaf, true);
                removeLeaf(leaf);
            }""")]),
]
