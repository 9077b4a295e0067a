"""Mutants of file name macros (C30)."""
M = 'makefile.cpp'
MUTANTS = []
def m(name, *edits, f=M, ids=('C30',)):
    MUTANTS.append((name, list(ids), [(f, a, b) for a, b in edits]))
m('at-length', ("            replacementLength = 1;\n            results += targetName();", "            replacementLength = 2;\n            results += targetName();"))
m('star-keeps-ext', ("                    removeFileExtension(tgt);\n", ""))
m('starstar-one', ("                    replacementLength = 2;", "                    replacementLength = 1;"))
m('starstar-all-always', ("results = dependentCandidates;", "results = m_dependents;"))
m('starstar-allowed', ("                    if (dependentsForbidden) {\n                        throw Exception(QLatin1String(\"Macro $** not allowed here.\"));\n                    }\n", ""))
m('q-allowed', ("                if (dependentsForbidden) {\n                    throw Exception(QLatin1String(\"Macro $? not allowed here.\"));\n                }\n", ""))
m('q-strict', ("if (targetTimeStamp <= dependentTimeStamp) {", "if (targetTimeStamp < dependentTimeStamp) {"))
m('q-reverse', ("if (targetTimeStamp <= dependentTimeStamp) {", "if (dependentTimeStamp <= targetTimeStamp) {"))
m('q-first', ("                        results += dependentName;\n", "                        results += dependentName;\n                        break;\n"))
m('q-all', ("foreach (const QString& dependentName, dependentCandidates) {", "foreach (const QString& dependentName, m_dependents) {"))
m('idx-zero', ("dependentCandidates << m_dependents.at(depIdx);", "dependentCandidates << m_dependents.at(0);"))
m('idx-cond', ("        if (depIdx == -1)\n            dependentCandidates", "        if (depIdx <= 0)\n            dependentCandidates"))
m('no-paren-end', ("str.replace(idx - 1, replacementLength + 1, macroValue);", "str.replace(idx - 1, replacementLength + 2, macroValue);"))
m('paren-end', ("                    macroInvokationEnd = idx + replacementLength + 1;\n", ""))
m('replace-start', ("str.replace(idx - 1, macroInvokationEnd - idx + 2, macroValue);", "str.replace(idx, macroInvokationEnd - idx + 1, macroValue);"))
m('idx-skip', ("            str.replace(idx - 1, replacementLength + 1, macroValue);\n            idx += macroValue.length() - 1;", "            str.replace(idx - 1, replacementLength + 1, macroValue);\n            idx += macroValue.length();"))
m('idx-skip2', ("                idx += macroValue.length() - 1;\n            }", "            }"))
m('subst-first', ("                    for (int i = 0; i < macroValues.count(); ++i) {\n                        MacroTable::apply", "                    for (int i = 0; i < qMin(1, macroValues.count()); ++i) {\n                        MacroTable::apply"))
m('subst-idx', ("substitutionIdx = idx + replacementLength + 3;", "substitutionIdx = idx + replacementLength + 2;"))
m('subst-idx2', ("                    substitutionIdx = idx + replacementLength + 2;\n                    break", "                    substitutionIdx = idx + replacementLength + 3;\n                    break"))
m('no-subst-after-mod', ("                if (!substitutionStateKnown && str.at(idx + replacementLength + 2) == QLatin1Char(':'))\n                    substitutionIdx = idx + replacementLength + 3;\n", ""))
m('D-slash', ("                        int k = qMax(macroValue.lastIndexOf(QLatin1Char('\\\\')),\n                                     macroValue.lastIndexOf(QLatin1Char('/')));", "                        int k = macroValue.lastIndexOf(QLatin1Char('\\\\'));"))
m('D-keeps', ("macroValue = macroValue.left(k);", "macroValue = macroValue.left(k + 1);"))
m('D-nodot', ('                        if (k == -1)\n                            macroValue = QLatin1String(".");\n                        else\n', '                        if (k != -1)\n'))
m('D-first-sep', ("qMax(macroValue.lastIndexOf(QLatin1Char('\\\\')),\n                                     macroValue.lastIndexOf(QLatin1Char('/')));", "qMax(macroValue.indexOf(QLatin1Char('\\\\')),\n                                     macroValue.indexOf(QLatin1Char('/')));"))
m('D-one', ("                case 'D':\n                    for (int i = 0; i < macroValues.count(); ++i) {", "                case 'D':\n                    for (int i = 0; i < 1; ++i) {"))
m('F-B', ("macroValue = QFileInfo(macroValue).fileName();", "macroValue = QFileInfo(macroValue).baseName();"))
m('B-complete', ("macroValue = QFileInfo(macroValue).baseName();", "macroValue = QFileInfo(macroValue).completeBaseName();"))
m('R-missing', ("                        removeFileExtension(macroValues[i]);\n", ""))
m('ext-dir', ("    if (k > filePath.lastIndexOf(QLatin1Char('\\\\')) && k > filePath.lastIndexOf(QLatin1Char('/')))\n", "    if (k > filePath.lastIndexOf(QLatin1Char('\\\\')))\n"))
m('ext-first', ("const int k = filePath.lastIndexOf(QLatin1Char('.'));", "const int k = filePath.indexOf(QLatin1Char('.'));"))
m('join-noblank', ("        if (i > 0)\n            result += QLatin1Char(' ');\n", ""))
m('join-always', ("        if (i > 0)\n            result += QLatin1Char(' ');\n", "        result += QLatin1Char(' ');\n"))
m('join-noquote', ("        quoteStringIfNeeded(value);\n", ""))
m('join-quote-once', ("        quoteStringIfNeeded(value);\n", "        if (i == 0)\n            quoteStringIfNeeded(value);\n"))
m('quote-tab', (" || str.contains(QLatin1Char('\\t'))", ""))
m('quote-half', ("        str.append(QLatin1Char('\"'));\n", ""))
m('caret', ("            if (chBefore == '^') {", "            if (chBefore == '^' && idx > 2) {"))
m('no-caret', ("                lastEscapedIdx = idx - 1;\n                continue;", "                lastEscapedIdx = idx - 1;"))
m('no-inline-name', ("        expandFileNameMacros(inlineFile->m_filename, depIdx, false);\n", ""))
m('no-inline-content', ("        expandFileNameMacros(inlineFile->m_content, depIdx, false);\n", ""))
m('inline-all', ("        expandFileNameMacros(inlineFile->m_content, depIdx, false);\n", "        expandFileNameMacros(inlineFile->m_content, -1, false);\n"))
m('inline-first', ("        expandFileNameMacros(inlineFile->m_content, depIdx, false);\n", "        expandFileNameMacros(inlineFile->m_content, depIdx, false);\n        break;\n"))
m('single-stays', ("                newCommand.m_singleExecution = false;\n", ""))
m('single-idx', ("                expandFileNameMacros(newCommand, i);", "                expandFileNameMacros(newCommand, m_dependents.count() - 1 - i);"))
m('single-skip', ("for (int i=0; i < m_dependents.count(); ++i) {\n                Command", "for (int i=1; i < m_dependents.count(); ++i) {\n                Command"))
m('single-orig', ("                it = m_commands.insert(it, newCommand);", "                it = m_commands.insert(it, origCommand);"))
m('skip-silent', ("        } else {\n            expandFileNameMacros(*it, -1);", "        } else {\n            if (!(*it).m_silent)\n                expandFileNameMacros(*it, -1);"))
m('dep-allowed', ("        expandFileNameMacros(dependent, -1, true);", "        expandFileNameMacros(dependent, -1, false);"))
m('dep-not-first', ("    QStringList::iterator it = m_dependents.begin();\n    for (; it", "    QStringList::iterator it = m_dependents.begin();\n    if (m_dependents.count() > 1)\n        ++it;\n    for (; it"))
m('pass-forbidden', ("getFileNameMacroValues(str.midRef(idx+1), replacementLength,\n                                                             depIdx, dependentsForbidden)", "getFileNameMacroValues(str.midRef(idx+1), replacementLength,\n                                                             depIdx, false)"))
m('pass-idx', ("getFileNameMacroValues(str.midRef(idx), replacementLength,\n                                                             depIdx,", "getFileNameMacroValues(str.midRef(idx), replacementLength,\n                                                             -1,"))
# behaviour kept
m('ok-helper-mod', ("""                    for (int i = 0; i < macroValues.count(); ++i) {
                        QString &macroValue = macroValues[i];
                        macroValue = QFileInfo(macroValue).fileName();
                    }
""", """                    takeFileNames(macroValues);
"""), ("static QString joinFileNameMacroValues", """static void takeFileNames(QStringList &values)
{
    for (int i = 0; i < values.count(); ++i)
        values[i] = QFileInfo(values.at(i)).fileName();
}

static QString joinFileNameMacroValues"""))
m('ok-helper-dir', ("""                        int k = qMax(macroValue.lastIndexOf(QLatin1Char('\\\\')),
                                     macroValue.lastIndexOf(QLatin1Char('/')));
                        if (k == -1)
                            macroValue = QLatin1String(".");
                        else
                            macroValue = macroValue.left(k);
""", """                        macroValue = directoryOf(macroValue);
"""), ("static QString joinFileNameMacroValues", """static QString directoryOf(const QString &path)
{
    const int k = qMax(path.lastIndexOf(QLatin1Char('\\\\')), path.lastIndexOf(QLatin1Char('/')));
    if (k < 0)
        return QLatin1String(".");
    return path.left(k);
}

static QString joinFileNameMacroValues"""))
m('ok-mark', ("            str.replace(idx - 1, replacementLength + 1, macroValue);\n            idx += macroValue.length() - 1;", "            const int mark = idx - 1;\n            str.replace(mark, 1 + replacementLength, macroValue);\n            idx = mark + macroValue.length();"))
m('ok-join', ("        if (i > 0)\n            result += QLatin1Char(' ');\n        QString value = macroValues.at(i);\n        quoteStringIfNeeded(value);\n        result += value;", "        QString value = macroValues.at(i);\n        quoteStringIfNeeded(value);\n        if (i != 0)\n            result.append(QLatin1Char(' '));\n        result.append(value);"))
m('ok-foreach-subst', ("                    for (int i = 0; i < macroValues.count(); ++i) {\n                        MacroTable::applySubstitution(substitution, macroValues[i]);\n                    }", "                    for (QStringList::iterator v = macroValues.begin(); v != macroValues.end(); ++v)\n                        MacroTable::applySubstitution(substitution, *v);"))
m('ok-early-single', ("        if ((*it).m_singleExecution) {\n            Command", "        const bool forEachDependent = it->m_singleExecution;\n        if (forEachDependent) {\n            Command"))
m('ok-invert-single', ("        if ((*it).m_singleExecution) {\n            Command origCommand", "        if (!it->m_singleExecution) {\n            expandFileNameMacros(*it, -1);\n            ++it;\n        } else {\n            Command origCommand"), ("        } else {\n            expandFileNameMacros(*it, -1);\n            ++it;\n        }\n    }\n}", "        }\n    }\n}"))
m('ok-values-helper', ("                foreach (const QString& dependentName, dependentCandidates) {\n                    FileTime dependentTimeStamp = FastFileInfo(dependentName).lastModified();\n                    if (targetTimeStamp <= dependentTimeStamp) {\n                        results += dependentName;\n                    }\n                }", "                for (int i = 0; i < dependentCandidates.count(); ++i) {\n                    const QString dependentName = dependentCandidates.at(i);\n                    if (FastFileInfo(dependentName).lastModified() < targetTimeStamp)\n                        continue;\n                    results.append(dependentName);\n                }"))
m('ok-deps-for', ("    QStringList::iterator it = m_dependents.begin();\n    for (; it != m_dependents.end(); ++it) {\n        QString& dependent = *it;\n        expandFileNameMacros(dependent, -1, true);\n    }", "    for (int i = 0; i < m_dependents.count(); ++i)\n        expandFileNameMacros(m_dependents[i], -1, true);"))
m('ok-switch-if', ("            replacementLength = 1;\n            results += targetName();", "            results << m_targetName;\n            replacementLength = 1;"))
m('ok-inline-iter', ("    foreach (InlineFile* inlineFile, command.m_inlineFiles) {\n        expandFileNameMacros(inlineFile->m_filename, depIdx, false);", "    for (int i = 0; i < command.m_inlineFiles.count(); ++i) {\n        InlineFile *inlineFile = command.m_inlineFiles.at(i);\n        expandFileNameMacros(inlineFile->m_filename, depIdx, false);"))
