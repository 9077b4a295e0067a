D='dependencygraph.cpp'; T='targetexecutor.cpp'; F='fastfileinfo.cpp'; M='makefile.cpp'; FT='filetime.cpp'; FH='filetime.h'
LOOP='''        foreach (const QString& dependentName, target->m_dependents) {
            FileTime ts;
            DescriptionBlock *dependent = target->makefile()->target(dependentName);
            if (dependent) {
                ts = dependent->m_timeStamp;
                if (!dependent->m_bFileExists && !dependent->m_commands.isEmpty()) {
                    // Mimic insane nmake behaviour: If the dependent is a pseudotarget
                    // and has commands, then this target is out of date.
                    latestDependentTime = FileTime::currentTime();
                    break;
                }
            }

            if (!ts.isValid()) {
                FastFileInfo fi(dependentName);
                if (fi.exists())
                    ts = fi.lastModified();
            }

            if (!ts.isValid()) {
                // File does not exist, so it gets the latest time stamp.
                latestDependentTime = FileTime::currentTime();
                break;
            }

            if (latestDependentTime < ts)
                latestDependentTime = ts;
        }
'''
SCAN='''        while (m_bDirtyLeaves) {
            m_bDirtyLeaves = false;
            foreach (Node *leaf, m_leaves)
                if (leaf->state != Node::ExecutingState && isTargetUpToDate(leaf->target))
                    upToDateNodes.append(leaf);
            foreach (Node *leaf, upToDateNodes) {
                displayNodeBuildInfo(leaf, true);
                removeLeaf(leaf);
            }
            upToDateNodes.clear();
        }
'''
MUTANTS = [
 ('c07-skip-nocmd',['C07'],[(D,"            if (dependent) {\n                ts = d","            if (dependent) {\n                if (dependent->m_bFileExists && dependent->m_commands.isEmpty())\n                    continue;\n                ts = d")]),
 ('c07-break',['C07'],[(D,"            if (latestDependentTime < ts)\n                latestDependentTime = ts;\n","            if (latestDependentTime < ts) {\n                latestDependentTime = ts;\n                if (target->m_bFileExists && ts <= target->m_timeStamp)\n                    break;\n            }\n")]),
 ('c07-last',['C07'],[(D,"            if (latestDependentTime < ts)\n                latestDependentTime = ts;\n","            latestDependentTime = ts;\n")]),
 ('c07-min',['C07'],[(D,"if (latestDependentTime < ts)","if (!latestDependentTime.isValid() || ts < latestDependentTime)")]),
 ('c07-swap',['C07'],[(D,"latestDependentTime <= target->m_timeStamp)","target->m_timeStamp <= latestDependentTime)")]),
 ('c07-strict',['C07'],[(D,"latestDependentTime <= target->m_timeStamp)","latestDependentTime < target->m_timeStamp)")]),
 ('c07-noexist',['C07'],[(D,"isUpToDate = (target->m_bFileExists && latest","isUpToDate = (latest")]),
 ('c07-nodeps-true',['C07'],[(D,"        isUpToDate = target->m_bFileExists;\n","        isUpToDate = target->m_bFileExists || target->m_commands.isEmpty();\n")]),
 ('c07-pseudo',['C07'],[(D,"if (!dependent->m_bFileExists && !dependent->m_commands.isEmpty()) {","if (!dependent->m_bFileExists && !dependent->m_commands.isEmpty() && !ts.isValid()) {")]),
 ('c07-pseudo2',['C07'],[(D,"if (!dependent->m_bFileExists && !dependent->m_commands.isEmpty()) {","if (!dependent->m_bFileExists && dependent->m_commands.count() > 1) {")]),
 ('c07-invalid',['C07'],[(D,"            if (!ts.isValid()) {\n                // File","            if (!ts.isValid() && dependent) {\n                // File")]),
 ('c07-invalidcont',['C07'],[(D,"                // File does not exist, so it gets the latest time stamp.\n                latestDependentTime = FileTime::currentTime();\n                break;","                continue;")]),
 ('c07-noclear',['C07'],[(D,"    if (!isUpToDate && target->m_bFileExists)\n        target->m_timeStamp.clear();\n","")]),
 ('c07-noclear2',['C07'],[(D,"    if (!isUpToDate && target->m_bFileExists)","    if (!isUpToDate && target->m_bFileExists && target->m_dependents.isEmpty())")]),
 ('c07-norestore',['C07'],[(D,"        target->m_inferenceRules = savedRules;\n","        if (!isUpToDate)\n            target->m_inferenceRules = savedRules;\n")]),
 ('c07-norestore2',['C07'],[(D,"        target->m_dependents = savedDependents;\n","        if (isUpToDate) target->m_dependents = savedDependents;\n")]),
 ('c07-infer1',['C07'],[(D,"                target->m_dependents.append(inferredDependent);\n            }\n","                target->m_dependents.append(inferredDependent);\n                break;\n            }\n")]),
 ('c07-noinfer',['C07'],[(D,"        if (inferredDependentAdded)\n            isUpToDate","        if (inferredDependentAdded && savedDependents.isEmpty())\n            isUpToDate")]),
 ('c07-owntime',['C07'],[(D,"        target->m_bFileExists = true;\n        target->m_timeStamp = fi.lastModified();","        target->m_bFileExists = true;\n        if (!target->m_timeStamp.isValid())\n            target->m_timeStamp = fi.lastModified();")]),
 ('c07-note',['C07'],[(D,"        if (!target->m_bFileExists)\n            target->m_timeStamp = latestDependentTime;","        if (!target->m_bFileExists || target->m_commands.isEmpty())\n            target->m_timeStamp = latestDependentTime;")]),
 ('c07-if',['C07'],[(D,"while (m_bDirtyLeaves) {","if (m_bDirtyLeaves) {")]),
 ('c07-scanskip',['C07'],[(D,"if (leaf->state != Node::ExecutingState && isTarget","if (leaf->state == Node::UnknownState && !leaf->target->m_dependents.isEmpty() && isTarget")]),
 ('c07-nodirty',['C07'],[(D,"            m_bDirtyLeaves = true;\n            m_leaves","            m_bDirtyLeaves = m_bDirtyLeaves || m_leaves.isEmpty();\n            m_leaves")]),
 ('c07-nodirty2',['C07'],[(D,"{\n    m_bDirtyLeaves = true;\n    m_root","{\n    m_root")]),
 ('c07-ign',['C07'],[(D,"    if (!ignoreTimeStamps) {","    if (!ignoreTimeStamps || m_bDirtyLeaves) {")]),
 ('c07-force',['C07'],[(T,"findAvailableTarget(m_makefile->options()->buildAllTargets)","findAvailableTarget(m_makefile->options()->buildAllTargets || m_makefile->options()->dryRun)")]),
 ('c07-le',['C07'],[(FH,"return operator < (rhs) || operator == (rhs);","return operator < (rhs);")]),
 ('c07-lt',['C07'],[(FT,"CompareFileTime(t1, t2) < 0","CompareFileTime(t1, t2) <= 0")]),
 ('c07-lt2',['C07'],[(FT,"CompareFileTime(t1, t2) < 0","CompareFileTime(t2, t1) < 0")]),
 ('c08-noclear',['C08'],[(T,"    FastFileInfo::clearCacheForFile(executor->target()->targetName());\n","    if (!commandFailed)\n        FastFileInfo::clearCacheForFile(executor->target()->targetName());\n")]),
 ('c08-late',['C08'],[(T,"    FastFileInfo::clearCacheForFile(executor->target()->targetName());\n    m_depgraph->removeLeaf(executor->target());","    m_depgraph->removeLeaf(executor->target());\n    FastFileInfo::clearCacheForFile(m_makefile->fileName());")]),
 ('c08-neg',['C08'],[(F,"        z(m_attributes)->dwFileAttributes = INVALID_FILE_ATTRIBUTES;\n        return;","        z(m_attributes)->dwFileAttributes = INVALID_FILE_ATTRIBUTES;")]),
 ('c08-key',['C08'],[(F,"fadHash.insert(fileName,","fadHash.insert(nativeFilePath,"),]),
 ('c08-key2',['C08'],[(F,"fadHash.remove(fileName)","fadHash.remove(QDir::toNativeSeparators(fileName))")]),
 ('c08-noinv',['C08'],[(F,"        z(m_attributes)->dwFileAttributes = INVALID_FILE_ATTRIBUTES;\n        return;","        return;")]),
 ('c08-reset',['C08'],[(M,"        target->m_bFileExists = false;\n","        if (!target->m_commands.isEmpty())\n            target->m_bFileExists = false;\n")]),
 ('c08-reset2',['C08'],[(M,"        target->m_timeStamp = FileTime();\n","")]),
 ('c08-next',['C08'],[(T,"                    m_makefile->invalidateTimeStamps();\n","")]),
 ('ok-c07-max',['C07'],[(D,"            if (latestDependentTime < ts)\n                latestDependentTime = ts;\n","            if (!(ts <= latestDependentTime))\n                latestDependentTime = ts;\n")]),
 ('ok-c07-early',['C07'],[(D,"            if (!ts.isValid()) {\n                FastFileInfo fi(dependentName);\n                if (fi.exists())\n                    ts = fi.lastModified();\n            }\n","            if (!ts.isValid()) {\n                const FastFileInfo info(dependentName);\n                ts = info.exists() ? info.lastModified() : FileTime();\n            }\n")]),
 ('ok-c07-helper',['C07'],[(D,"            if (!ts.isValid()) {\n                FastFileInfo fi(dependentName);\n                if (fi.exists())\n                    ts = fi.lastModified();\n            }\n","            if (!ts.isValid())\n                ts = timeOfFile(dependentName);\n"),(D,"bool DependencyGraph::isTargetUpToDate(D","static FileTime timeOfFile(const QString &name)\n{\n    const FastFileInfo fi(name);\n    if (!fi.exists())\n        return FileTime();\n    return fi.lastModified();\n}\n\nbool DependencyGraph::isTargetUpToDate(D")]),
 ('ok-c07-for',['C07'],[(D,"        foreach (const QString& dependentName, target->m_dependents) {\n            FileTime ts;","        for (int i = 0; i < target->m_dependents.count(); ++i) {\n            const QString &dependentName = target->m_dependents.at(i);\n            FileTime ts;")]),
 ('ok-c07-range',['C07'],[(D,"        foreach (const QString& dependentName, target->m_dependents) {\n            FileTime ts;","        const QStringList &deps = target->m_dependents;\n        for (const QString &dependentName : deps) {\n            FileTime ts;")]),
 ('ok-c07-helper2',['C07'],[(D,LOOP,"        latestDependentTime = latestTimeOfDependents(target);\n"),(D,"bool DependencyGraph::isTargetUpToDate(D","static FileTime latestTimeOfDependents(DescriptionBlock *target)\n{\n    FileTime latestDependentTime;\n"+LOOP.replace('                    break;\n','                    return latestDependentTime;\n').replace('                break;\n','                return latestDependentTime;\n')+"    return latestDependentTime;\n}\n\nbool DependencyGraph::isTargetUpToDate(D")]),
 ('ok-c07-nested',['C07'],[(D,"isUpToDate = (target->m_bFileExists && latestDependentTime <= target->m_timeStamp);","if (!target->m_bFileExists)\n            isUpToDate = false;\n        else\n            isUpToDate = !(target->m_timeStamp < latestDependentTime);")]),
 ('ok-c07-ret',['C07'],[(D,"    if (!isUpToDate && target->m_bFileExists)\n        target->m_timeStamp.clear();\n\n    return isUpToDate;","    if (isUpToDate)\n        return true;\n    if (target->m_bFileExists)\n        target->m_timeStamp = FileTime();\n    return false;")]),
 ('ok-c07-scan',['C07','C01','C02'],[(D,SCAN,"        while (m_bDirtyLeaves) {\n            m_bDirtyLeaves = false;\n            upToDateNodes.clear();\n            for (int i = 0; i < m_leaves.count(); ++i) {\n                Node *leaf = m_leaves.at(i);\n                if (leaf->state == Node::ExecutingState)\n                    continue;\n                if (isTargetUpToDate(leaf->target))\n                    upToDateNodes.append(leaf);\n            }\n            foreach (Node *leaf, upToDateNodes) {\n                displayNodeBuildInfo(leaf, true);\n                removeLeaf(leaf);\n            }\n        }\n")]),
 ('ok-c07-cond',['C07'],[(D,"if (!dependent->m_bFileExists && !dependent->m_commands.isEmpty()) {","const bool pseudo = !dependent->m_bFileExists && dependent->m_commands.count() > 0;\n                if (pseudo) {")]),
 ('ok-c07-inforder',['C07'],[(D,"if (!target->m_dependents.contains(inferredDependent) && FastFileInfo(inferredDependent).exists()) {","if (FastFileInfo(inferredDependent).exists() && !target->m_dependents.contains(inferredDependent)) {")]),
 ('ok-c07-infcont',['C07'],[(D,"            if (!target->m_dependents.contains(inferredDependent) && FastFileInfo(inferredDependent).exists()) {\n                inferredDependentAdded = true;\n                target->m_dependents.append(inferredDependent);\n            }\n","            if (target->m_dependents.contains(inferredDependent))\n                continue;\n            if (!FastFileInfo(inferredDependent).exists())\n                continue;\n            target->m_dependents << inferredDependent;\n            inferredDependentAdded = true;\n")]),
 ('ok-c07-le',['C07'],[(FH,"return operator < (rhs) || operator == (rhs);","return !(rhs < *this);")]),
 ('ok-c07-lt',['C07'],[(FT,"return CompareFileTime(t1, t2) < 0;","const LONG result = CompareFileTime(t1, t2);\n    return result == -1;")]),
 ('ok-c07-own',['C07'],[(D,"    FastFileInfo fi(target->targetName());\n    if (fi.exists()) {\n        target->m_bFileExists = true;\n        target->m_timeStamp = fi.lastModified();\n    }\n","    const QString fileName = target->targetName();\n    const FastFileInfo fi(fileName);\n    const bool exists = fi.exists();\n    if (exists) {\n        target->m_timeStamp = fi.lastModified();\n        target->m_bFileExists = true;\n    }\n")]),
 ('ok-c08-local',['C08','C01','C12'],[(T,"    FastFileInfo::clearCacheForFile(executor->target()->targetName());\n    m_depgraph->removeLeaf(executor->target());","    DescriptionBlock *const finishedTarget = executor->target();\n    FastFileInfo::clearCacheForFile(finishedTarget->targetName());\n    m_depgraph->removeLeaf(finishedTarget);")]),
 ('ok-c08-first',['C08'],[(T,"    Q_CHECK_PTR(executor->target());\n    if (commandFailed) {","    Q_CHECK_PTR(executor->target());\n    FastFileInfo::clearCacheForFile(executor->target()->targetName());\n    if (commandFailed) {"),(T,"    FastFileInfo::clearCacheForFile(executor->target()->targetName());\n    m_depgraph","    m_depgraph")]),
 ('ok-c08-else',['C08'],[(F,"    {\n        z(m_attributes)->dwFileAttributes = INVALID_FILE_ATTRIBUTES;\n        return;\n    }\n\n    fadHash.insert(fileName, *z(m_attributes));","    {\n        z(m_attributes)->dwFileAttributes = INVALID_FILE_ATTRIBUTES;\n    } else {\n        fadHash.insert(fileName, *z(m_attributes));\n    }")]),
 ('ok-c08-find',['C08'],[(F,"    *z(m_attributes) = fadHash.value(fileName, invalidFAD);\n    if (z(m_attributes)->dwFileAttributes != INVALID_FILE_ATTRIBUTES)\n        return;\n","    *z(m_attributes) = invalidFAD;\n    const QHash<QString, WIN32_FILE_ATTRIBUTE_DATA>::const_iterator it = fadHash.constFind(fileName);\n    if (it != fadHash.constEnd()) {\n        *z(m_attributes) = it.value();\n        return;\n    }\n")]),
 ('ok-c08-foreach',['C08'],[(M,"    QHash<QString, DescriptionBlock*>::iterator it = m_targets.begin();\n    QHash<QString, DescriptionBlock*>::iterator itEnd = m_targets.end();\n    for (; it != itEnd; ++it) {\n        DescriptionBlock* target = it.value();\n        target->m_timeStamp","    foreach (DescriptionBlock *target, m_targets) {\n        target->m_timeStamp")]),
]
