"""Mutants of macro expansion (C26)."""
M = 'macrotable.cpp'
def m(name, *edits, f=M, ids=('C26',)):
    MUTANTS.append((name, list(ids), [(f, a, b) for a, b in edits]))
MUTANTS = []
V = '''                        QString macroValue = cycleCheckedMacroValue(macroName, usedMacros);
                        macroValue = expandMacros(macroValue, inDependentsLine, usedMacros);
                        if (macroNameEnd'''
m('no-remove', ('''                        usedMacros.remove(macroName);
                        ret.append(macroValue);
''', '''                        ret.append(macroValue);
'''))
m('no-remove-single', ('''                usedMacros.remove(macroName);
                ret.append(macroValue);
            } else''', '''                ret.append(macroValue);
            } else'''))
m('remove-before', ('''                macroValue = expandMacros(macroValue, inDependentsLine, usedMacros);
                usedMacros.remove(macroName);
                ret''', '''                usedMacros.remove(macroName);
                macroValue = expandMacros(macroValue, inDependentsLine, usedMacros);
                ret'''))
m('fresh-set', (V, V.replace('inDependentsLine, usedMacros)', 'inDependentsLine)')))
m('fresh-set-single', ('''                macroValue = expandMacros(macroValue, inDependentsLine, usedMacros);
                usedMacros.remove''', '''                macroValue = expandMacros(macroValue, inDependentsLine);
                usedMacros.remove'''))
m('no-dep', (V, V.replace('inDependentsLine, usedMacros)', 'false, usedMacros)')))
m('no-insert', ('    usedMacros.insert(macroName);\n', ''))
m('insert-late', ('''    if (usedMacros.contains(macroName)) {
        QString msg''', '''    if (usedMacros.count() > 1 && usedMacros.contains(macroName)) {
        QString msg'''))
m('clear', ('usedMacros.remove(macroName);\n                        ret', 'usedMacros.clear();\n                        ret'))
m('unexpanded', ('                        macroValue = expandMacros(macroValue, inDependentsLine, usedMacros);\n                        if', '                        if'))
m('subst-before', ('''                        macroValue = expandMacros(macroValue, inDependentsLine, usedMacros);
                        if (macroNameEnd != macroInvokationEnd) {
                            const Substitution s = parseSubstitutionStatement(str, macroNameEnd + 1, macroInvokationEnd);
                            applySubstitution(s, macroValue);
                        }''', '''                        if (macroNameEnd != macroInvokationEnd) {
                            const Substitution s = parseSubstitutionStatement(str, macroNameEnd + 1, macroInvokationEnd);
                            applySubstitution(s, macroValue);
                        }
                        macroValue = expandMacros(macroValue, inDependentsLine, usedMacros);'''))
m('subst-start', ('parseSubstitutionStatement(str, macroNameEnd + 1, macro', 'parseSubstitutionStatement(str, macroNameEnd, macro'))
m('subst-not-if-empty', ('if (macroNameEnd != macroInvokationEnd) {', 'if (macroNameEnd + 1 < macroInvokationEnd) {'))
m('subst-dep', ('if (macroNameEnd != macroInvokationEnd) {', 'if (macroNameEnd != macroInvokationEnd && !inDependentsLine) {'))
m('last-colon', ('                        if (macroNameEnd < 0)\n                            macroNameEnd = macroInvokationEnd;\n                    } else', '                            macroNameEnd = macroInvokationEnd;\n                    } else'), )
m('pending-not-reset', ('                ret.append(str.mid(appendStart, appendLength));\n                appendStart = -1;', '                ret.append(str.mid(appendStart, appendLength));'))
m('pending-lost', ('                ret.append(str.mid(appendStart, appendLength));\n                appendStart = -1;', '                appendStart = -1;'))
m('pending-lost-one', ('            if (appendStart != -1) {\n                ret.append', '            if (appendStart > 0) {\n                ret.append'))
m('end-lost', ('        ret.append(str.mid(appendStart, appendLength));\n    }\n\n    return ret;', '    }\n\n    return ret;'))
m('end-short', ('        ret.append(str.mid(appendStart, appendLength));\n    }\n\n    return ret;', '        ret.append(str.mid(appendStart, appendLength - 1));\n    }\n\n    return ret;'))
m('whole', ('if (appendStart == 0 && appendLength == str.count())', 'if (appendLength == str.count() - appendStart)'))
m('len', ('                appendLength = 1;', '                appendLength = 0;'))
m('len2', ('                ++appendLength;', '                if (str.at(i) != QLatin1Char(\'\\0\')) ++appendLength;'))
m('dollar-twice', ("                    ret.append(QLatin1Char('$'));\n", "                    ret.append(QLatin1String(\"$$\"));\n"))
m('dollar-lost', ("                    ret.append(QLatin1Char('$'));\n", "                    if (i < max_i) ret.append(QLatin1Char('$'));\n"))
m('dep-always', ('                if (inDependentsLine) {\n                    // in', '                {\n                    // in'))
m('dep-i', ('                        i = j;', '                        i = j - 1;'))
m('dep-paren', ("                        if (parenthesisFound)\n                            ret.append", "                        if (!parenthesisFound)\n                            ret.append"))
m('magic-lost', ('                    ret.append(fileNameMacroMagicEscape);\n                    ret.append(str.at(i));', '                    ret.append(str.at(i));'))
m('magic-paren-lost', ('                        ret.append(fileNameMacroMagicEscape);\n                        ret.append(QLatin1String("("));', '                        ret.append(QLatin1String("("));'))
m('magic-short', ('ret.append(str.mid(i + 1, macroInvokationEnd - i));', 'ret.append(str.mid(i + 1, macroNameEnd - i));'))
m('file-macro', ("                case '?':\n                    {\n", "                    {\n"))
m('file-macro-single', ("                case '?':\n                    ret", "                    ret"))
m('file-macro-more', ("                case '?':\n                    ret", "                case '?':\n                case '!':\n                    ret"))
m('accept-other', ('                    throw Exception(QLatin1String("Invalid macro invocation found"));', '                    ret.append(str.at(i)); break;'))
m('letters-only', ('str.at(i).isLetterOrNumber()', 'str.at(i).isLetterOrNumber() || str.at(i) == QLatin1Char(\'_\')'))
m('i-end', ('                i = macroInvokationEnd;\n', '                i = macroNameEnd;\n'))
m('name-len', ('str.mid(i + 1, macroNameEnd - i - 1)', 'str.mid(i + 1, macroNameEnd - i)'))
m('bounds', ('str.count() > j && str.at(j) == QLatin1Char(\'@\')', 'str.at(j) == QLatin1Char(\'@\')'))
m('bounds2', ("if (str.at(i) == QLatin1Char('$') && i < max_i) {", "if (str.at(i) == QLatin1Char('$')) {"))
m('before-len', ('substitutionStartIdx, equalsSignIdx - substitutionStartIdx);', 'substitutionStartIdx, equalsSignIdx - substitutionStartIdx + 1);'))
m('after-len', ('equalsSignIdx + 1, macroInvokationEndIdx - equalsSignIdx - 1);', 'equalsSignIdx + 1, macroInvokationEndIdx - equalsSignIdx);'))
m('caret-left', ('result.before.remove(quotePosition - substitutionStartIdx, 1);', 'result.before.remove(quotePosition, 1);'))
m('caret-right', ('result.after.remove(quotePosition - equalsSignIdx - 1, 1);', 'result.after.remove(quotePosition - equalsSignIdx, 1);'))
m('caret-asc', ('for (int i=quotePositions.count() - 1; i >= 0; --i) {', 'for (int i=0; i < quotePositions.count(); ++i) {'))
m('caret-first', ('for (int i=quotePositions.count() - 1; i >= 0; --i) {', 'for (int i=quotePositions.count() - 1; i > 0; --i) {'))
m('quoted-stays', ("        } else {\n            quoted = false;\n        }", "        }"))
m('quoted-eq', ("        if (ch == QLatin1Char('=')) {\n            quoted = false;", "        if (ch == QLatin1Char('=')) {"))
m('no-quote', ("QLatin1Char(')') && !quoted", "QLatin1Char(')')"))
m('quote-end', ("            macroInvokationEndIdx = i;\n            break;", "            macroInvokationEndIdx = i;"))
m('no-eq', ('if (equalsSignIdx < 0 || macroInvokationEndIdx < 0)', 'if (macroInvokationEndIdx < 0)'))
m('no-end', ('if (equalsSignIdx < 0 || macroInvokationEndIdx < 0)', 'if (equalsSignIdx < 0)'))
m('replace-ci', ('value.replace(substitution.before, substitution.after);', 'value.replace(substitution.before, substitution.after, Qt::CaseInsensitive);'))
m('replace-swap', ('value.replace(substitution.before, substitution.after);', 'value.replace(substitution.after, substitution.before);'))
m('replace-if', ('value.replace(substitution.before, substitution.after);', 'if (!substitution.after.isEmpty()) value.replace(substitution.before, substitution.after);'))
# behaviour kept
m('ok-order', ('''                        usedMacros.remove(macroName);
                        ret.append(macroValue);
''', '''                        ret.append(macroValue);
                        usedMacros.remove(macroName);
'''))
m('ok-plus', ('                        ret.append(macroValue);\n', '                        ret += macroValue;\n'))
m('ok-helper', (V, V.replace('''QString macroValue = cycleCheckedMacroValue(macroName, usedMacros);
                        macroValue = expandMacros(macroValue, inDependentsLine, usedMacros);''', '''QString macroValue = enteredValue(macroName, inDependentsLine, usedMacros);''')),
  ('QString MacroTable::cycleCheckedMacroValue(', '''QString MacroTable::enteredValue(const QString &name, bool inDependentsLine, QSet<QString> &usedMacros) const
{
    const QString raw = cycleCheckedMacroValue(name, usedMacros);
    return expandMacros(raw, inDependentsLine, usedMacros);
}

QString MacroTable::cycleCheckedMacroValue('''))
MUTANTS[-1][2].append(('macrotable.h', 'QString cycleCheckedMacroValue(', 'QString enteredValue(const QString &name, bool inDependentsLine, QSet<QString> &usedMacros) const;\n    QString cycleCheckedMacroValue('))
m('ok-flush-helper', ('''            if (appendStart != -1) {
                ret.append(str.mid(appendStart, appendLength));
                appendStart = -1;
            }
''', '''            flush(ret, str, appendStart, appendLength);
'''), ('QString MacroTable::expandMacros(const QString& str, bool inDependentsLine, QSet', '''static void flush(QString &ret, const QString &str, int &start, int length)
{
    if (start == -1)
        return;
    ret.append(str.mid(start, length));
    start = -1;
}

QString MacroTable::expandMacros(const QString& str, bool inDependentsLine, QSet'''))
m('ok-for', ('    int i = 0;\n    int appendStart', '    int appendStart'), ('    while (i <= max_i) {', '    for (int i = 0; i <= max_i; ++i) {'), ('        }\n        ++i;\n    }\n', '        }\n    }\n'))
m('ok-count', ('while (i <= max_i) {', 'while (i < str.count()) {'))
m('ok-ch', ("            } else if (str.at(i).isLetterOrNumber()) {", "            } else if (const bool letter = str.at(i).isLetterOrNumber()) {"))
m('ok-negate', ('''            if (appendStart == -1) {
                appendStart = i;
                appendLength = 1;
            } else {
                ++appendLength;
            }''', '''            if (appendStart != -1) {
                appendLength += 1;
            } else {
                appendLength = 1;
                appendStart = i;
            }'''))
m('ok-subst-cond', ('if (macroNameEnd != macroInvokationEnd) {', 'if (macroNameEnd < macroInvokationEnd) {'))
m('ok-helper-file', ('''                switch (macroName.at(0).toLatin1())
                {
                case '<':
                case '*':
                case '@':
                case '?':
                    {''', '''                const bool fileMacro = isFileMacro(macroName.at(0));
                switch (fileMacro ? 1 : 0)
                {
                case 1:
                    {'''), ('QString MacroTable::expandMacros(const QString& str, bool inDependentsLine, QSet', '''static bool isFileMacro(QChar ch)
{
    return ch == QLatin1Char('<') || ch == QLatin1Char('*') || ch == QLatin1Char('@') || ch == QLatin1Char('?');
}

QString MacroTable::expandMacros(const QString& str, bool inDependentsLine, QSet'''))
m('ok-remove-loop', ('''    for (int i=quotePositions.count() - 1; i >= 0; --i) {
        const int quotePosition = quotePositions.at(i);''', '''    int q = quotePositions.count();
    while (--q >= 0) {
        const int quotePosition = quotePositions.at(q);'''))
m('ok-remove-cond', ('''        if (quotePosition < equalsSignIdx)
            result.before.remove(quotePosition - substitutionStartIdx, 1);
        else
            result.after.remove(quotePosition - equalsSignIdx - 1, 1);''', '''        if (quotePosition > equalsSignIdx)
            result.after.remove(quotePosition - (equalsSignIdx + 1), 1);
        else
            result.before.remove(quotePosition - substitutionStartIdx, 1);'''))
m('ok-quoted-first', ('''        if (ch == QLatin1Char('=')) {
            quoted = false;
            equalsSignIdx = i;
        } else if (ch == QLatin1Char(')') && !quoted) {
            quoted = false;
            macroInvokationEndIdx = i;
            break;
        } else if (ch == QLatin1Char('^')) {
            quoted = true;
            quotePositions.append(i);
        } else {
            quoted = false;
        }''', '''        if (ch == QLatin1Char(')') && !quoted) {
            macroInvokationEndIdx = i;
            break;
        }
        quoted = (ch == QLatin1Char('^'));
        if (quoted)
            quotePositions.append(i);
        else if (ch == QLatin1Char('='))
            equalsSignIdx = i;'''))
m('ok-substhelper', ('''                            const Substitution s = parseSubstitutionStatement(str, macroNameEnd + 1, macroInvokationEnd);
                            applySubstitution(s, macroValue);''', '''                            const int from = macroNameEnd + 1;
                            applySubstitution(parseSubstitutionStatement(str, from, macroInvokationEnd), macroValue);'''))
m('ok-cycle', ('    usedMacros.insert(macroName);\n    return macroValue(macroName);', '    const QString value = macroValue(macroName);\n    usedMacros.insert(macroName);\n    return value;'))
m('ok-invhelper', ('''                int macroInvokationEnd = i+1;
                int macroNameEnd = -1;
                bool closingParenthesisFound = false;
                for (; macroInvokationEnd <= max_i; ++macroInvokationEnd) {
                    const QChar ch = str.at(macroInvokationEnd);
                    if (ch == QLatin1Char(':')) {
                        if (macroNameEnd < 0)
                            macroNameEnd = macroInvokationEnd;
                    } else if (ch == QLatin1Char(')')) {
                        closingParenthesisFound = true;
                        break;
                    }
                }
                if (!closingParenthesisFound)
                    throw''', '''                int macroInvokationEnd = i+1;
                int macroNameEnd = -1;
                if (!findEnd(str, macroInvokationEnd, macroNameEnd))
                    throw'''), ('QString MacroTable::expandMacros(const QString& str, bool inDependentsLine, QSet', '''static bool findEnd(const QString &str, int &end, int &nameEnd)
{
    for (; end < str.count(); ++end) {
        const QChar ch = str.at(end);
        if (ch == QLatin1Char(':')) {
            if (nameEnd < 0)
                nameEnd = end;
        } else if (ch == QLatin1Char(')')) {
            return true;
        }
    }
    return false;
}

QString MacroTable::expandMacros(const QString& str, bool inDependentsLine, QSet'''))
