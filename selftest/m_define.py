P = 'preprocessor.cpp'
C = ['C35']
def m(name, old, new, c=C): return (name, c, [(P, old, new)])
SCAN = '''        if (ch == QLatin1Char('(')) {
            ++parenthesisDepth;
        } else if (ch == QLatin1Char(')')) {
            --parenthesisDepth;
        } else if (parenthesisDepth == 0) {
            if (ch == QLatin1Char('=')) {
                equalsSignPos = i;
                break;
            } else if (ch == QLatin1Char(':')) {
                // A colon (outside parenthesis) to the left of an equals sign is not a valid
                // macro assignment. This is likely to be a description block.
                break;
            }
        }
'''
VALUE = '''    QString name = line.left(equalsSignPos).trimmed();
    QString value = line.mid(equalsSignPos + 1).trimmed();
    removeInlineComments(value);
'''
COM = '''    int idx = -1;
    while (true) {
        idx = line.indexOf(QLatin1Char('#'), idx + 1);
        if (idx > 0 && line.at(idx - 1) == QLatin1Char('^')) {
            line.remove(--idx, 1);
            continue;
        }
        break;
    }
    if (idx >= 0) {
        line.truncate(idx);
        line = line.trimmed();
    }
'''
MUTANTS = [
    m('no-colon', SCAN, SCAN.replace("            } else if (ch == QLatin1Char(':')) {\n                // A colon (outside parenthesis) to the left of an equals sign is not a valid\n                // macro assignment. This is likely to be a description block.\n                break;\n            }", "            }")),
    m('colon-not-last', SCAN, SCAN.replace("(ch == QLatin1Char(':'))", "(ch == QLatin1Char(':') && i > 1)")),
    m('eq-in-parens', SCAN, SCAN.replace("} else if (parenthesisDepth == 0) {", "} else {")),
    m('eq-last', SCAN, SCAN.replace("                equalsSignPos = i;\n                break;", "                equalsSignPos = i;")),
    m('parens-up', SCAN, SCAN.replace('--parenthesisDepth', '++parenthesisDepth')),
    m('parens-no-down', SCAN, SCAN.replace("            --parenthesisDepth;\n", "")),
    m('parens-reset', SCAN, SCAN.replace("            --parenthesisDepth;\n", "            parenthesisDepth = 0;\n")),
    m('name-with-eq', VALUE, VALUE.replace('left(equalsSignPos)', 'left(equalsSignPos + 1)')),
    m('name-untrimmed', VALUE, VALUE.replace('left(equalsSignPos).trimmed()', 'left(equalsSignPos)')),
    m('value-untrimmed', VALUE, VALUE.replace('mid(equalsSignPos + 1).trimmed()', 'mid(equalsSignPos + 1)')),
    m('value-with-eq', VALUE, VALUE.replace('mid(equalsSignPos + 1)', 'mid(equalsSignPos)')),
    m('value-to-lasteq', VALUE, VALUE.replace('mid(equalsSignPos + 1)', "mid(line.lastIndexOf(QLatin1Char('=')) + 1)")),
    m('value-comment-kept', VALUE, VALUE.replace('    removeInlineComments(value);\n', '')),
    m('value-comment-quoted', VALUE, VALUE.replace('    removeInlineComments(value);\n', "    if (!value.startsWith(QLatin1Char('\"')))\n        removeInlineComments(value);\n")),
    m('set-swapped', 'setMacroValue(name, value)', 'setMacroValue(value, name)'),
    m('set-not-empty', '    m_macroTable->setMacroValue(name, value);\n    return true;', '    if (!value.isEmpty())\n        m_macroTable->setMacroValue(name, value);\n    return true;'),
    m('set-returns-false', '    m_macroTable->setMacroValue(name, value);\n    return true;', '    m_macroTable->setMacroValue(name, value);\n    return false;'),
    m('com-no-escape', COM, COM.replace("idx > 0 && line.at(idx - 1) == QLatin1Char('^')", 'false')),
    m('com-caret-kept', COM, COM.replace('            line.remove(--idx, 1);\n', '')),
    m('com-skip', COM, COM.replace('remove(--idx, 1)', 'remove(idx - 1, 1)')),
    m('com-hash-removed', COM, COM.replace('remove(--idx, 1)', 'remove(idx, 1)')),
    m('com-two', COM, COM.replace('remove(--idx, 1)', 'remove(--idx, 2)')),
    m('com-once', COM, COM.replace('            continue;\n', '            idx = -1;\n')),
    m('com-first-col', COM, COM.replace('if (idx >= 0)', 'if (idx > 0)')),
    m('com-one-left', COM, COM.replace('line.truncate(idx)', 'line.truncate(idx + 1)')),
    m('com-last', COM, COM.replace("        break;\n    }\n    if", "        if (line.indexOf(QLatin1Char('#'), idx + 1) == -1)\n            break;\n    }\n    if")),
    # refactorings
    m('ok-scan-if', SCAN, '''        if (ch == QLatin1Char('('))
            parenthesisDepth++;
        else if (ch == QLatin1Char(')'))
            parenthesisDepth--;
        if (parenthesisDepth != 0 || ch == QLatin1Char(')'))
            continue;
        if (ch == QLatin1Char(':'))
            break;
        if (ch == QLatin1Char('=')) {
            equalsSignPos = i;
            break;
        }
'''),
    m('ok-scan-colon-first', SCAN, SCAN.replace('''            if (ch == QLatin1Char('=')) {
                equalsSignPos = i;
                break;
            } else if (ch == QLatin1Char(':')) {
                // A colon (outside parenthesis) to the left of an equals sign is not a valid
                // macro assignment. This is likely to be a description block.
                break;
            }
''', '''            if (ch == QLatin1Char(':'))
                return false;
            if (ch == QLatin1Char('=')) {
                equalsSignPos = i;
                break;
            }
''')),
    m('ok-value-const', VALUE, '''    const QString name = line.left(equalsSignPos).trimmed();
    QString value = line.mid(equalsSignPos + 1);
    value = value.trimmed();
    removeInlineComments(value);
'''),
    m('ok-eq-cond', '    if (equalsSignPos < 0)\n        return false;', '    if (equalsSignPos == -1)\n        return false;'),
    m('ok-eq-flag', '    if (equalsSignPos < 0)\n        return false;\n\n' + VALUE, '    const bool found = equalsSignPos >= 0;\n    if (!found)\n        return false;\n\n' + VALUE),
    m('ok-com-loop', COM, '''    int idx = line.indexOf(QLatin1Char('#'));
    while (idx > 0 && line.at(idx - 1) == QLatin1Char('^')) {
        line.remove(--idx, 1);
        idx = line.indexOf(QLatin1Char('#'), idx + 1);
    }
    if (idx >= 0) {
        line.truncate(idx);
        line = line.trimmed();
    }
'''),
    m('ok-com-remove', COM, COM.replace('            line.remove(--idx, 1);\n', '            line.remove(idx - 1, 1);\n            --idx;\n')),
    m('ok-com-for', COM, '''    int idx = -1;
    for (;;) {
        idx = line.indexOf(QLatin1Char('#'), idx + 1);
        const bool escaped = idx > 0 && line.at(idx - 1) == QLatin1Char('^');
        if (!escaped)
            break;
        --idx;
        line.remove(idx, 1);
    }
    if (idx == -1)
        return;
    line.truncate(idx);
    line = line.trimmed();
'''),
    ('ok-scan-helper', C, [(P, '''    int equalsSignPos = -1;
    int parenthesisDepth = 0;
    for (int i=1; i < line.count(); ++i) {
        const QChar &ch = line.at(i);
''' + SCAN + '    }\n', '    const int equalsSignPos = findEqualsSign(line);\n'), (P, 'bool Preprocessor::parseMacro(', '''static int findEqualsSign(const QString &line)
{
    int parenthesisDepth = 0;
    for (int i=1; i < line.count(); ++i) {
        const QChar &ch = line.at(i);
        if (ch == QLatin1Char('(')) {
            ++parenthesisDepth;
        } else if (ch == QLatin1Char(')')) {
            --parenthesisDepth;
        } else if (parenthesisDepth == 0) {
            if (ch == QLatin1Char('='))
                return i;
            if (ch == QLatin1Char(':'))
                return -1;
        }
    }
    return -1;
}

bool Preprocessor::parseMacro(''')]),
]
