"""Mutants of conditional directives (C27)."""
P = 'preprocessor.cpp'
MUTANTS = []
def m(name, *edits, f=P, ids=('C27',)):
    MUTANTS.append((name, list(ids), [(f, a, b) for a, b in edits]))

IF = '''        bool followElseBranch = evaluateExpandedExpression(value) == 0;
        enterConditional(followElseBranch);'''
m('if-inverted', ('evaluateExpandedExpression(value) == 0;', 'evaluateExpandedExpression(value) != 0;'))
m('if-eq1', ('bool followElseBranch = evaluateExpandedExpression(value) == 0;', 'bool followElseBranch = evaluateExpandedExpression(value) != 1;'))
m('ifdef-inverted', ('bool followElseBranch = !m_macroTable->isMacroDefined(value);', 'bool followElseBranch = m_macroTable->isMacroDefined(value);'))
m('ifdef-line', ('bool followElseBranch = !m_macroTable->isMacroDefined(value);', 'bool followElseBranch = !m_macroTable->isMacroDefined(line);'))
m('if-no-push', (IF, '''        bool followElseBranch = evaluateExpandedExpression(value) == 0;
        if (followElseBranch) enterConditional(followElseBranch);'''))
m('if-push-true', (IF, IF.replace('enterConditional(followElseBranch)', 'enterConditional(true)')))
m('if-push-twice', (IF, IF + '\n        enterConditional(followElseBranch);'))
m('if-push-not', (IF, IF.replace('enterConditional(followElseBranch)', 'enterConditional(!followElseBranch)')))
m('if-skip-first', (IF + '''
        if (followElseBranch) {
            skipUntilNextMatchingConditional();
        }''', '''        bool followElseBranch = evaluateExpandedExpression(value) == 0;
        if (followElseBranch) {
            skipUntilNextMatchingConditional();
        }
        enterConditional(followElseBranch);'''))
ELSE = '''        if (!m_conditionalStack.top()) {
            skipUntilNextMatchingConditional();
        } else {
            m_conditionalStack.pop();
            m_conditionalStack.push(false);
        }
    } else if (directive == QLatin1String("ELSEIF")) {'''
m('else-not-noted', (ELSE, ELSE.replace('''            m_conditionalStack.pop();
            m_conditionalStack.push(false);
''', '')))
m('else-always', (ELSE, ELSE.replace('if (!m_conditionalStack.top())', 'if (conditionalDepth() > 1 && !m_conditionalStack.top())')))
m('else-pop', (ELSE, ELSE.replace('            m_conditionalStack.push(false);\n', '')))
m('else-push-true', (ELSE, ELSE.replace('push(false)', 'push(true)')))
m('else-unmatched', ('''        if (conditionalDepth() == 0)
            error(QLatin1String("unexpected ELSE"));
        if (!m_conditionalStack.top()) {''', '''        if (conditionalDepth() < 0)
            error(QLatin1String("unexpected ELSE"));
        if (!m_conditionalStack.top()) {'''))
m('else-unmatched1', ('''        if (conditionalDepth() == 0)
            error(QLatin1String("unexpected ELSE"));
        if (!m_conditionalStack.top()) {''', '''        if (conditionalDepth() <= 1)
            error(QLatin1String("unexpected ELSE"));
        if (!m_conditionalStack.top()) {'''))
m('elseif-cond-only', ('if (!m_conditionalStack.top() || evaluateExpandedExpression(value) == 0) {', 'if (evaluateExpandedExpression(value) == 0) {'))
m('elseif-and', ('if (!m_conditionalStack.top() || evaluateExpandedExpression(value) == 0) {', 'if (!m_conditionalStack.top() && evaluateExpandedExpression(value) == 0) {'))
m('elseif-top-only', ('if (!m_conditionalStack.top() || evaluateExpandedExpression(value) == 0) {', 'if (!m_conditionalStack.top()) {'))
m('elseifdef-swapped', ('if (!m_conditionalStack.top() || !m_macroTable->isMacroDefined(value)) {', 'if (!m_conditionalStack.top() || m_macroTable->isMacroDefined(value)) {'))
m('elseifdef-not-noted', ('''        if (!m_conditionalStack.top() || !m_macroTable->isMacroDefined(value)) {
            skipUntilNextMatchingConditional();
        } else {
            m_conditionalStack.pop();
            m_conditionalStack.push(false);
        }''', '''        if (!m_conditionalStack.top() || !m_macroTable->isMacroDefined(value))
            skipUntilNextMatchingConditional();'''))
m('elseif-skip-noted', ('''        if (!m_conditionalStack.top() || evaluateExpandedExpression(value) == 0) {
            skipUntilNextMatchingConditional();
        } else {
            m_conditionalStack.pop();
            m_conditionalStack.push(false);
        }''', '''        bool skip = !m_conditionalStack.top() || evaluateExpandedExpression(value) == 0;
        m_conditionalStack.pop();
        m_conditionalStack.push(false);
        if (skip)
            skipUntilNextMatchingConditional();'''))
m('endif-two', ('        exitConditional();\n    } else if (directive == QLatin1String("UNDEF"))', '        exitConditional();\n        if (conditionalDepth()) exitConditional();\n    } else if (directive == QLatin1String("UNDEF"))'))
m('endif-none', ('    if (m_conditionalStack.isEmpty())\n        error(QLatin1String("unexpected ENDIF"));\n    m_conditionalStack.pop();', '    if (m_conditionalStack.isEmpty())\n        return;\n    m_conditionalStack.pop();'))
m('unknown', ('        error(QString(QStringLiteral("Unknown preprocessor directive !%1")).arg(directive));', '        if (directive.length() < 3) error(QString(QStringLiteral("Unknown preprocessor directive !%1")).arg(directive));'))
m('unknown-silent', ('        error(QString(QStringLiteral("Unknown preprocessor directive !%1")).arg(directive));', '        return false;'))
m('undef-none', ('        m_macroTable->undefineMacro(value);', '        if (m_macroTable->isMacroDefined(value.toLower())) m_macroTable->undefineMacro(value);'))
m('raw-line', ('if (!isPreprocessingDirective(expandedLine, directive, value))\n        return false;', 'if (!isPreprocessingDirective(line, directive, value))\n        return false;'))
m('endif-missing', ('if (line.content.isNull() && conditionalDepth())', 'if (line.content.isNull() && conditionalDepth() > 1)'))
m('endif-missing2', ('if (line.content.isNull() && conditionalDepth())', 'if (line.content.isNull() && conditionalDepth() && !m_fileStack.isEmpty())'))
# skipping
m('skip-no-count', ('            ++depth;\n', '            depth = 1;\n'))
m('skip-no-uncount', ('            --depth;\n', '            depth = 0;\n'))
m('skip-else-nested', ('''        if (depth == 0) {
            if (token == TOK_ELSE) {
                m_linesPutBack.append(line.content);
                return;  // found the next matching ELSE
            }
''', '''        if (token == TOK_ELSE) {
            m_linesPutBack.append(line.content);
            return;  // found the next matching ELSE
        }
        if (depth == 0) {
'''))
m('skip-lost', ('                m_linesPutBack.append(line.content);\n', ''))
m('skip-endif-open', ('                exitConditional();\n                return;', '                return;'))
m('skip-endif-back', ('                exitConditional();\n                return;', '                m_linesPutBack.append(line.content);\n                return;'), ids=('ok-',) and ('C27',))
m('skip-if-only', ('directive.startsWith(QLatin1String("IF"))', 'directive == QLatin1String("IF")'))
m('skip-else-only', ('else if (directive.startsWith(QLatin1String("ELSE")))', 'else if (directive == QLatin1String("ELSE"))'))
m('skip-else-pop', ('                m_linesPutBack.append(line.content);\n                return;', '                m_linesPutBack.append(line.content);\n                exitConditional();\n                return;'))
m('skip-incomplete', ('        if (line.content.startsWith(QLatin1Char(\'!\')))\n            completePreprocessingDirectiveLine(line);\n', ''))
m('skip-expands', ('if (!isPreprocessingDirective(line.content, directive, value))\n            continue;', 'if (!isPreprocessingDirective(m_macroTable->expandMacros(line.content), directive, value))\n            continue;'))
m('skip-depth1', ('    uint depth = 0;', '    uint depth = 1;'))
m('skip-endless', ('        if (line.content.isNull())\n            return;\n', ''))
m('skip-put-value', ('m_linesPutBack.append(line.content);', 'm_linesPutBack.append(directive);'))
m('clear-on-include', ('    m_fileStack.push(TextFile());\n', '    m_conditionalStack.clear();\n    m_fileStack.push(TextFile());\n'))
# refactorings
m('ok-else-merged', ('''        if (!m_conditionalStack.top()) {
            skipUntilNextMatchingConditional();
        } else {
            m_conditionalStack.pop();
            m_conditionalStack.push(false);
        }
    } else if (directive == QLatin1String("ELSEIF")) {''', '''        if (m_conditionalStack.top())
            m_conditionalStack.top() = false;
        else
            skipUntilNextMatchingConditional();
    } else if (directive == QLatin1String("ELSEIF")) {'''))
m('ok-enter-helper', (IF + '''
        if (followElseBranch) {
            skipUntilNextMatchingConditional();
        }''', '''        startConditional(evaluateExpandedExpression(value) != 0);'''), ('''void Preprocessor::enterConditional(bool''', '''void Preprocessor::startConditional(bool use)
{
    enterConditional(!use);
    if (!use)
        skipUntilNextMatchingConditional();
}

void Preprocessor::enterConditional(bool'''))
MUTANTS[-1][2].append(('preprocessor.h', '    void enterConditional(', '    void startConditional(bool use);\n    void enterConditional('))
m('ok-elseif-var', ('''        if (!m_conditionalStack.top() || evaluateExpandedExpression(value) == 0) {
            skipUntilNextMatchingConditional();
        } else {''', '''        const bool useIt = m_conditionalStack.top() && evaluateExpandedExpression(value);
        if (!useIt) {
            skipUntilNextMatchingConditional();
        } else {'''))
m('ok-ifdef-merged', ('''    } else if (directive == QLatin1String("IFDEF")) {
        bool followElseBranch = !m_macroTable->isMacroDefined(value);
        enterConditional(followElseBranch);
        if (followElseBranch) {
            skipUntilNextMatchingConditional();
        }
    } else if (directive == QLatin1String("IFNDEF")) {
        bool followElseBranch = m_macroTable->isMacroDefined(value);
        enterConditional(followElseBranch);
        if (followElseBranch) {
            skipUntilNextMatchingConditional();
        }''', '''    } else if (directive == QLatin1String("IFDEF") || directive == QLatin1String("IFNDEF")) {
        bool followElseBranch = m_macroTable->isMacroDefined(value) == (directive == QLatin1String("IFNDEF"));
        enterConditional(followElseBranch);
        if (followElseBranch) {
            skipUntilNextMatchingConditional();
        }'''))
m('ok-ifdef-negate', ('''        bool followElseBranch = m_macroTable->isMacroDefined(value);
        enterConditional(followElseBranch);
        if (followElseBranch) {''', '''        bool defined = m_macroTable->isMacroDefined(value);
        enterConditional(defined);
        if (defined) {'''))
m('ok-skip-switch', ('''        if (depth == 0) {
            if (token == TOK_ELSE) {
                m_linesPutBack.append(line.content);
                return;  // found the next matching ELSE
            }
            if (token == TOK_ENDIF) {
                exitConditional();
                return;  // found the next matching ENDIF
            }
        }

        if (token == TOK_ENDIF)
            --depth;
        else if (token == TOK_IF)
            ++depth;
''', '''        switch (token) {
        case TOK_ELSE:
            if (depth == 0) {
                m_linesPutBack.append(line.content);
                return;
            }
            break;
        case TOK_ENDIF:
            if (depth == 0) {
                exitConditional();
                return;
            }
            --depth;
            break;
        case TOK_IF:
            ++depth;
            break;
        default:
            break;
        }
'''))
m('ok-skip-direct', ('''        if (depth == 0) {
            if (token == TOK_ELSE) {
                m_linesPutBack.append(line.content);
                return;  // found the next matching ELSE
            }
            if (token == TOK_ENDIF) {
                exitConditional();
                return;  // found the next matching ENDIF
            }
        }
''', '''        if (depth == 0 && token == TOK_ELSE) {
            m_linesPutBack.append(line.content);
            break;
        }
        if (depth == 0 && token == TOK_ENDIF) {
            exitConditional();
            break;
        }
'''))
m('ok-skip-for', ('    do {\n        line = basicReadLine();\n        if (line.content.isNull())\n            return;\n', '    for (;;) {\n        line = basicReadLine();\n        if (line.content.isNull())\n            return;\n'),
  ('    } while (!line.content.isNull());\n}\n\nvoid Preprocessor::enter', '    }\n}\n\nvoid Preprocessor::enter'))
m('ok-skip-int', ('    uint depth = 0;', '    int depth = 0;'))
m('ok-skip-classify', ('''        if (directive == QLatin1String("ENDIF"))
            token = TOK_ENDIF;
        else if (directive.startsWith(QLatin1String("IF")))
            token = TOK_IF;
        else if (directive.startsWith(QLatin1String("ELSE")))
            token = TOK_ELSE;
        else
            token = TOK_UNINTERESTING;
''', '''        const bool isEnd = directive == QLatin1String("ENDIF");
        const bool isElse = directive.startsWith(QLatin1String("ELSE"));
        token = isEnd ? TOK_ENDIF : isElse ? TOK_ELSE : directive.startsWith(QLatin1String("IF")) ? TOK_IF : TOK_UNINTERESTING;
'''))
