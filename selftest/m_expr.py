P = 'ppexprparser.cpp'
L = 'ppexpr-lex.inc'
G = 'ppexpr_grammar.cpp'
H = 'ppexprparser.h'
C = ['C29']
MUTANTS = [
    ('and is or', C, [(P, "(sym(1).num != 0 && sym(3).num != 0) ? 1 : 0", "(sym(1).num != 0 || sym(3).num != 0) ? 1 : 0")]),
    ('and bitwise', C, [(P, "sym(1).num = (sym(1).num != 0 && sym(3).num != 0) ? 1 : 0", "sym(1).num &= sym(3).num")]),
    ('or keeps value', C, [(P, "(sym(1).num != 0 || sym(3).num != 0) ? 1 : 0", "(sym(1).num != 0 || sym(3).num != 0) ? sym(1).num : 0")]),
    ('or > 0', C, [(P, "(sym(1).num != 0 || sym(3).num != 0) ? 1 : 0", "(sym(1).num > 0 || sym(3).num > 0) ? 1 : 0")]),
    ('bitor', C, [(P, "sym(1).num |= sym(3).num", "sym(1).num ^= sym(3).num")]),
    ('string not equal', C, [(P, "(*lhs == *rhs) ? 0 : 1", "(*lhs == *rhs) ? 1 : 0")]),
    ('string compares case insensitively', C, [(P, "sym(1).num = (*lhs == *rhs) ? 1 : 0;", "sym(1).num = (lhs->toLower() == rhs->toLower()) ? 1 : 0;")]),
    ('string pointer comparison', C, [(P, "(*lhs == *rhs) ? 1 : 0", "(lhs == rhs) ? 1 : 0")]),
    ('less equal', C, [(P, "(sym(1).num <= sym(3).num)", "(sym(1).num < sym(3).num)")]),
    ('greater reversed', C, [(P, "(sym(1).num > sym(3).num)", "(sym(3).num > sym(1).num)")]),
    ('shift swapped', C, [(P, "sym(1).num <<= sym(3).num", "sym(1).num >>= sym(3).num")]),
    ('minus reversed', C, [(P, "sym(1).num -= sym(3).num", "sym(1).num = sym(3).num - sym(1).num")]),
    ('minus of 2', C, [(P, "sym(1).num -= sym(3).num", "sym(1).num -= sym(2).num")]),
    ('division by zero', C, [(P, "if (rhs == 0) {\n            m_errorMessage = \"division by zero\";", "if (rhs < 0) {\n            m_errorMessage = \"division by zero\";")]),
    ('neg only of positive', C, [(P, "sym(1).num = -sym(2).num;", "if (sym(2).num > 0) sym(1).num = -sym(2).num;")]),
    ('not', C, [(P, "(sym(2).num == 0) ? 1 : 0", "(sym(2).num == 0) ? 0 : 1")]),
    ('bit not', C, [(P, "sym(1).num = ~sym(2).num", "sym(1).num = !sym(2).num")]),
    ('paren', C, [(P, "    case 32: // primary\n        sym(1).num = sym(2).num;", "    case 32: // primary\n        sym(1).num = sym(2).num != 0;")]),
    ('paren none', C, [(P, "    case 32: // primary\n        sym(1).num = sym(2).num;\n        break;", "")]),
    ('fallthrough', C, [(P, "sym(1).num *= sym(3).num;\n        break;", "sym(1).num *= sym(3).num;")]),
    ('string assigned before', C, [(P, "QByteArray* lhs = sym(1).str;\n        QByteArray* rhs = sym(3).str;\n        sym(1).num = (*lhs == *rhs) ? 1 : 0;", "sym(1).num = 0;\n        QByteArray* lhs = sym(1).str;\n        QByteArray* rhs = sym(3).str;\n        sym(1).num = (*lhs == *rhs) ? 1 : 0;")]),
    ('error is success', C, [(P, 'm_errorMessage = "Syntax Error";\n    yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);\n    return false;', 'm_errorMessage = "Syntax Error";\n    yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);\n    return tos > 0;')]),
    ('token twice', C, [(P, "state_stack [tos] = act;\n            yytoken = -1;", "state_stack [tos] = act;\n            if (!act) yytoken = -1;")]),
    ('token dropped', C, [(P, "            tos -= rhs [r];", "            yytoken = -1;\n            tos -= rhs [r];")]),
    ('no value', C, [(P, "            sym_stack [tos] = yylval;\n", "")]),
    ('no growth', C, [(P, "if (++tos == stack_size) {", "if (++tos == stack_size && tos > 500) {")]),
    ('growth late', C, [(P, "if (++tos == stack_size) {", "if (++tos > stack_size) {")]),
    ('growth of values only', C, [(P, "    state_stack = reinterpret_cast<int*> (realloc(state_stack, stack_size * sizeof(int)));\n", "    if (!state_stack) state_stack = reinterpret_cast<int*> (realloc(state_stack, stack_size * sizeof(int)));\n")]),
    ('growth bytes', C, [(P, "realloc(sym_stack, stack_size * sizeof(Value))", "realloc(sym_stack, stack_size * sizeof(int))")]),
    ('no growth of size', C, [(P, "stack_size <<= 1", "stack_size <<= 0")]),
    ('default lookahead', C, [(P, "if (yytoken == -1 && - TERMINAL_COUNT != action_index [state_stack [tos]]) {", "if (yytoken == -1 && 0 < action_index [state_stack [tos]]) {")]),
    ('goto wrong', C, [(P, "nt_action (act, lhs [r] - TERMINAL_COUNT)", "nt_action (act, lhs [r])")]),
    ('start state', C, [(P, "const int INITIAL_STATE = 0;", "const int INITIAL_STATE = 1;")]),
    ('value of wrong position', C, [(H, "return sym(1).num;", "return sym(0).num;")]),
    ('value truth', C, [(H, "return sym(1).num;", "return sym(1).num > 0;")]),
    ('lhs table', C, [(G, "  28, 28, 28, 28, 28, 28, 28, 30, 30, 30, ", "  28, 28, 28, 28, 28, 28, 28, 28, 30, 30, ")]),
    ('action table', C, [(G, "  34, 33, 5, 5, 42, 43,", "  34, 33, 5, 5, 43, 42,")]),
    ('action default', C, [(G, "1, 2, 7, 11, 18, 21, 24, 30, 31, 0,", "1, 2, 7, 11, 18, 21, 24, 31, 30, 0,")]),
    ('goto default', C, [(G, "  7, 10, 11, 12, 9, 13,", "  7, 10, 11, 12, 9, 14,")]),
    ('and token', C, [(L, "return T_BOOL_AND;", "return T_BIT_AND;")]),
    ('le token', C, [(L, "return T_EQUAL_OR_LESS_THAN;", "return T_LESS_THAN;")]),
    ('number hex', C, [(L, "yylval.num = atoi(yytext);", "yylval.num = yyleng;")]),
    ('string quote', C, [(L, "yylval.str->append('\\\"');", "yylval.str->append('\\'');")]),
    ('string text', C, [(L, "YY_RULE_SETUP\nyylval.str->append(yytext, static_cast<int>(yyleng));\n\tYY_BREAK\ncase 35", "YY_RULE_SETUP\n\tYY_BREAK\ncase 35")]),
    ('string stays', C, [(L, "                    BEGIN(INITIAL);\n                    return T_STRING;", "                    return T_STRING;")]),
    ('command status', C, [(L, "int exitCode = system(yylval.str->data());", "int exitCode = system(yylval.str->data()) ? 1 : 0;")]),
    ('command status 2', C, [(L, "yylval.num = exitCode;", "yylval.num = 0;")]),
    ('defined 0', C, [(L, "QString::fromLatin1(macroName.constData())) ? 1 : 0", "QString::fromLatin1(macroName.constData())) ? 0 : 1")]),
    ('defined by value', C, [(L, "m_macroTable->isMacroDefined(QString::fromLatin1(macroName.constData())) ? 1 : 0", "m_macroTable->macroValue(QString::fromLatin1(macroName.constData())).isEmpty() ? 0 : 1")]),
    ('exist', C, [(L, "QFile::exists(QString::fromLatin1(fileName.constData())) ? 1 : 0;\n        return", "QFile::exists(QString::fromLatin1(fileName.constData())) ? 1 : 2;\n        return")]),
    ('greedy', C, [(L, "        yyless(argumentLength(yytext, static_cast<int>(yyleng)));\n", "")]),
    ('greedy 2', C, [(L, "\n    yyless(argumentLength(yytext, static_cast<int>(yyleng)));\n", "\n")]),
    ('failed expression has a value', C, [('preprocessor.cpp', "        error(msg);\n    }\n\n    return m_expressionParser->expressionValue();", "        fprintf(stderr, \"%s\", qPrintable(msg));\n    }\n\n    return m_expressionParser->expressionValue();")]),
    ('bool value', C, [('preprocessor.cpp', "return m_expressionParser->expressionValue();", "return m_expressionParser->expressionValue() == 1;")]),
    # no change of behaviour
    ('ok-helper', C, [(P, "bool PPExprParser::parse(const char* str)\n", "static int negated(int x)\n{\n    return x == 0 ? 1 : 0;\n}\n\nbool PPExprParser::parse(const char* str)\n"),
                      (P, "sym(1).num = (sym(2).num == 0) ? 1 : 0;", "sym(1).num = negated(sym(2).num);")]),
    ('ok-if', C, [(P, "sym(1).num = (sym(1).num != 0 && sym(3).num != 0) ? 1 : 0;", "if (sym(1).num == 0)\n            sym(1).num = 0;\n        else\n            sym(1).num = sym(3).num ? 1 : 0;")]),
    ('ok-locals', C, [(P, "sym(1).num += sym(3).num;", "{\n            const int a = sym(1).num;\n            const int b = sym(3).num;\n            sym(1).num = b + a;\n        }")]),
    ('ok-not', C, [(P, "(sym(2).num == 0) ? 1 : 0", "!sym(2).num")]),
    ('ok-ge', C, [(P, "sym(1).num = (sym(1).num >= sym(3).num);", "sym(1).num = !(sym(1).num < sym(3).num);")]),
    ('ok-le', C, [(P, "sym(1).num = (sym(1).num <= sym(3).num);", "sym(1).num = sym(3).num >= sym(1).num ? 1 : 0;")]),
    ('ok-strings', C, [(P, "sym(1).num = (*lhs == *rhs) ? 0 : 1;", "const bool equal = *lhs == *rhs;\n        sym(1).num = equal ? 0 : 1;")]),
    ('ok-strings 2', C, [(P, "sym(1).num = (*lhs == *rhs) ? 0 : 1;", "sym(1).num = *lhs != *rhs;")]),
    ('ok-div', C, [(P, "sym(1).num = (rhs == -1) ? 0 : sym(1).num % rhs;", "if (rhs == -1)\n            sym(1).num = 0;\n        else\n            sym(1).num %= rhs;")]),
    ('ok-shift', C, [(P, "sym_stack [tos] = yylval;\n            state_stack [tos] = act;", "state_stack [tos] = act;\n            sym_stack [tos] = yylval;")]),
    ('ok-while', C, [(P, "    while (true)\n    {\n        if (yytoken", "    for (;;) {\n        if (yytoken")]),
    ('ok-lex', C, [(L, "yylval.num = atoi(yytext);\n    return T_NUMBER;", "const int number = atoi(yytext);\n    yylval.num = number;\n    return T_NUMBER;")]),
    ('ok-lex2', C, [(L, "        yylval.num = m_macroTable->isMacroDefined(QString::fromLatin1(macroName.constData())) ? 1 : 0;", "        const QString name = QString::fromLatin1(macroName.constData());\n        if (m_macroTable->isMacroDefined(name))\n            yylval.num = 1;\n        else\n            yylval.num = 0;")]),
    ('ok-lex3', C, [(L, "        yylval.num = m_macroTable->isMacroDefined(QString::fromLatin1(macroName.constData())) ? 1 : 0;", "        const bool defined = m_macroTable->isMacroDefined(QString::fromLatin1(macroName.constData()));\n        yylval.num = defined ? 1 : 0;")]),
    ('ok-exist helper', C, [(L, "static int argumentLength(", "static int fileExists(const QByteArray &fileName)\n{\n    return QFile::exists(QString::fromLatin1(fileName.constData())) ? 1 : 0;\n}\n\nstatic int argumentLength("),
                            (L, "        yylval.num = QFile::exists(QString::fromLatin1(fileName.constData())) ? 1 : 0;\n        return", "        yylval.num = fileExists(fileName);\n        return")]),
    ('ok-eval', C, [('preprocessor.cpp', "    if (!m_expressionParser->parse(qPrintable(expr))) {", "    const bool parsed = m_expressionParser->parse(qPrintable(expr));\n    if (!parsed) {")]),
    ('ok-switch default', C, [(P, "            } // switch", "            default:\n                break;\n            } // switch")]),
    ('ok-reduce', C, [(P, "            act = state_stack [tos++];", "            act = state_stack [tos];\n            ++tos;")]),
]
