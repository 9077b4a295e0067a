"""Mutants of the reading of lines (C31)."""
R = 'makefilelinereader.cpp'
P = 'preprocessor.cpp'
MUTANTS = []
def m(name, *edits, f=R, ids=('C31',)):
    MUTANTS.append((name, list(ids), [(f, a, b) for a, b in edits]))
# buffer
m('nogrow', ("                if (bytesRead >= (m_nLineBufferSize - 2))\n                    growLineBuffer(1);\n", ""), ("    m_lineBuffer[bytesRead] = '\\0';\n", "    m_lineBuffer[bytesRead + 1] = '\\0';\n"))
m('full', ("m_file.readLine(m_lineBuffer, m_nLineBufferSize - 1)", "m_file.readLine(m_lineBuffer, m_nLineBufferSize + 1)"))
m('more-size', ("m_nLineBufferSize - 1 - bytesRead);", "m_nLineBufferSize - 1);"))
m('more-grow', ("m_nLineBufferSize - 1 - bytesRead);", "m_nLineBufferGrowSize + 4);"))
m('grow-order', ("            growLineBuffer(m_nLineBufferGrowSize);\n            int moreBytesRead = m_file.readLine(m_lineBuffer + bytesRead, m_nLineBufferSize - 1 - bytesRead);", "            char *end = m_lineBuffer + bytesRead;\n            growLineBuffer(m_nLineBufferGrowSize);\n            int moreBytesRead = m_file.readLine(end, m_nLineBufferSize - 1 - bytesRead);"))
m('alias', ("    size_t bytesRead;\n    do {", "    size_t bytesRead;\n    char *const text = m_lineBuffer;\n    do {"), ("    char* buf = m_lineBuffer;\n", "    char* buf = text;\n"))
m('size-after', ("    m_nLineBufferSize += nGrow;\n    m_lineBuffer = reinterpret_cast<char*>(realloc(m_lineBuffer, m_nLineBufferSize));", "    m_lineBuffer = reinterpret_cast<char*>(realloc(m_lineBuffer, m_nLineBufferSize));\n    m_nLineBufferSize += nGrow;"))
m('realloc-lost', ("m_lineBuffer = reinterpret_cast<char*>(realloc(m_lineBuffer, m_nLineBufferSize));", "realloc(m_lineBuffer, m_nLineBufferSize);"))
m('realloc-grow', ("realloc(m_lineBuffer, m_nLineBufferSize)", "realloc(m_lineBuffer, nGrow)"))
m('ctor-size', ("malloc(m_nLineBufferSize)", "malloc(m_nLineBufferGrowSize)"))
m('guard2', ("bufLength >= 2 && buf[bufLength - 2] == '^'", "buf[bufLength - 2] == '^'"))
m('guard3', ("bufLength >= 3 && buf[bufLength - 3] == '\\\\'", "buf[bufLength - 3] == '\\\\'"))
m('guard3b', ("bufLength >= 3 && buf[bufLength - 3] == '^'", "bufLength >= 2 && buf[bufLength - 3] == '^'"))
m('n-negative', ("        if (n <= 0)\n            return {};\n", "        if (n == 0)\n            return {};\n"))
# whole
m('no-loop', ("        while (m_lineBuffer[bytesRead - 1] != '\\n') {", "        if (m_lineBuffer[bytesRead - 1] != '\\n') {"), ("                ++bytesRead;\n                break;\n", "                ++bytesRead;\n"), ("            int moreBytesRead = m", "            if (m_file.atEnd())\n                break;\n            int moreBytesRead = m"), ("            if (moreBytesRead <= 0)\n                break;\n", "            if (moreBytesRead <= 0)\n                return {};\n"))
m('no-imitate', ("                ++bytesRead;\n                break;\n", "                break;\n"))
m('more-start', ("m_file.readLine(m_lineBuffer + bytesRead, ", "m_file.readLine(m_lineBuffer + bytesRead - 1, "))
m('no-add', ("            bytesRead += moreBytesRead;\n", "            bytesRead = moreBytesRead;\n"))
m('no-cr', ("            if (m_lineBuffer[bytesRead - 1] == '\\n' && m_lineBuffer[bytesRead - 2] == '\\r')\n                m_lineBuffer[--bytesRead - 1] = '\\n';\n", ""))
m('cr-1', ("m_lineBuffer[--bytesRead - 1] = '\\n';", "m_lineBuffer[bytesRead - 2] = '\\n';"))
m('utf8', ("    line.content = QString::fromLatin1(buf, bufLength);", "    line.content = QString::fromUtf8(buf, bufLength);"))
m('cstr', ("    line.content = QString::fromLatin1(buf, bufLength);", "    line.content = QString::fromLatin1(buf + 1, bufLength - 1);"))
# comments, numbers
m('hash-second', ("    } while (m_lineBuffer[0] == '#');", "    } while (m_lineBuffer[0] == '#' && bytesRead > 2);"))
m('hash-none', ("    } while (m_lineBuffer[0] == '#');", "    } while (false);"))
m('hash-semi', ("    } while (m_lineBuffer[0] == '#');", "    } while (m_lineBuffer[0] == '#' || m_lineBuffer[0] == ';');"))
m('uni-hash', ("    } while (str.startsWith(QLatin1Char('#')));", "    } while (str.startsWith(QLatin1Char('#')) && !str.endsWith(QLatin1Char('\\\\')));"))
m('num-out', ("    size_t bytesRead;\n    do {\n        m_nLineNumber++;\n", "    size_t bytesRead;\n    m_nLineNumber++;\n    do {\n"))
m('uni-num', ("    do {\n        m_nLineNumber++;\n        str", "    m_nLineNumber++;\n    do {\n        str"))
m('num-long', ("            growLineBuffer(m_nLineBufferGrowSize);\n", "            growLineBuffer(m_nLineBufferGrowSize);\n            m_nLineNumber++;\n"))
# ends
m('bs-keep', ("            bufLength -= 2; // remove \"\\\\\\n\"\n            line.cont", "            bufLength -= 1; // remove \"\\\\\\n\"\n            line.cont"))
m('caretbs', ("            buf[bufLength - 3] = '\\\\';      // replace \"^\\\\\\n\" -> \"\\\\\\\\\\n\"\n", ""))
m('caretbs-len', ("            bufLength -= 2;                 // remove \"\\\\\\n\"", "            bufLength -= 1;                 // remove \"\\\\\\n\""))
m('bsbs', ("            bufLength--;    // remove trailing \\n\n        } else {", "            bufLength -= 2;    // remove trailing \\n\n        } else {"))
m('bs-type', ("LineContinuationType::Backslash;\n        }\n    } else if (bufLength", "LineContinuationType::Caret;\n        }\n    } else if (bufLength"))
m('caret-none', ("        bufLength -= 2;\n        line.continuation = LineContinuationType::Caret;", "        bufLength -= 2;"))
m('bsbs-first', ("bufLength >= 3 && buf[bufLength - 3] == '\\\\'", "bufLength >= 4 && buf[bufLength - 3] == '\\\\'"))
m('bs-min', ("    if (bufLength >= 2 && buf[bufLength - 2] == '\\\\') {", "    if (bufLength >= 3 && buf[bufLength - 2] == '\\\\') {"))
m('uni-order', ("    if (str.endsWith(QLatin1String(\"^\\\\\"))) {\n        str.remove(str.length() - 2, 1);\n    } else if (str.endsWith(QLatin1String(\"\\\\\\\\\"))) {", "    if (str.endsWith(QLatin1String(\"\\\\\\\\\"))) {"))
m('uni-bsbs', ("        // Do nothing. Double backslash at the end is not altered.\n", "        str.chop(1);\n"))
m('uni-rm', ("str.remove(str.length() - 2, 1);", "str.remove(str.length() - 1, 1);"))
m('uni-bs', ("        str.chop(1);\n        line.continuation = LineContinuationType::Backslash;", "        line.continuation = LineContinuationType::Backslash;"))
m('uni-caret', ("        str.chop(1);\n        line.continuation = LineContinuationType::Caret;", "        str.chop(1);\n        line.continuation = LineContinuationType::Backslash;"))
m('uni-empty', ("    if (str.isNull())\n        return line;", "    if (str.isEmpty())\n        return line;"))
# open, raw
m('bom-utf8', ("fileEncoding == FCUTF8 ? \"UTF-8\" : \"UTF-16\"", "fileEncoding == FCUTF8 ? \"UTF-16\" : \"UTF-8\""))
m('bom-none', ("        fileEncoding = FCUTF8;\n", "        fileEncoding = FCLatin1;\n"))
m('bom-read', ("m_file.peek(3)", "m_file.read(3)"))
m('no-text', ("QIODevice::ReadOnly | QIODevice::Text", "QIODevice::ReadOnly"))
m('no-device', ("        m_textStream.setDevice(&m_file);\n", ""))
m('raw-nonl', ("            if (!str.isNull())\n                str.append(QLatin1Char('\\n'));\n", ""))
m('raw-null', ("            if (!str.isNull())\n                str", "            str"))
m('raw-file', ("        if (m_textStream.device()) {", "        if (!m_textStream.device()) {"))
m('raw-num', ("    if (bInlineFileMode) {\n        m_nLineNumber++;\n", "    if (bInlineFileMode) {\n"))
m('raw-all', ("    if (bInlineFileMode) {", "    if (!bInlineFileMode) {"))
m('raw-empty', ("            if (!str.isNull())\n", "            if (!str.isEmpty())\n"))
# files
m('back-last', ("m_linesPutBack.takeFirst()", "m_linesPutBack.takeLast()"), f=P)
m('back-late', ("    if (!m_linesPutBack.isEmpty())\n        return { m_linesPutBack.takeFirst() };\n\n    if (m_fileStack.isEmpty())\n        return {};\n", "    if (m_fileStack.isEmpty())\n        return {};\n\n    if (!m_linesPutBack.isEmpty() && m_bInlineFileMode)\n        return { m_linesPutBack.takeFirst() };\n"), f=P)
m('pop-empty', ("    while (line.content.isNull()) {\n        delete", "    while (line.content.isEmpty()) {\n        delete"), f=P)
m('pop-once', ("    while (line.content.isNull()) {\n        delete", "    if (line.content.isNull()) {\n        delete"), ("        if (m_fileStack.isEmpty())\n            break;\n        line = m_file", "        if (m_fileStack.isEmpty())\n            return line;\n        line = m_file"), f=P)
m('pop-nodelete', ("        delete m_fileStack.top().reader;\n        m_fileStack.pop();\n        if", "        m_fileStack.pop();\n        if"), f=P)
m('pop-nocheck', ("        if (m_fileStack.isEmpty())\n            break;\n", ""), f=P)
m('mode', ("        line = m_fileStack.top().reader->readLine(m_bInlineFileMode);\n    }", "        line = m_fileStack.top().reader->readLine(false);\n    }"), f=P)
# joins
m('join-noblank', ("        line.content += QLatin1Char(' ');\n", "        line.content += QLatin1String(\"\");\n"), f=P)
m('join-caret', ("        line.content += QLatin1Char('\\n');\n", "        line.content += QLatin1Char(' ');\n"), f=P)
m('join-notrim', ("line.content += leftTrimmed(next.content);", "line.content += next.content;"), f=P)
m('join-cont', ("    line.content += leftTrimmed(next.content);\n    line.continuation = next.continuation;\n", "    line.content += leftTrimmed(next.content);\n    line.continuation = LineContinuationType::None;\n"), f=P)
m('join-order', ("    if (line.continuation == LineContinuationType::Backslash)\n        line.content += QLatin1Char(' ');", "    line.continuation = next.continuation;\n    if (line.continuation == LineContinuationType::Backslash)\n        line.content += QLatin1Char(' ');"), f=P)
m('dir-trim', ("    line.content += next.content;\n", "    line.content += leftTrimmed(next.content);\n"), f=P)
m('dir-nocaret', ("    if (line.continuation == LineContinuationType::Caret)\n        line.content += QLatin1Char('^');\n", ""), f=P)
m('dir-join', ("completeLineImpl(line, &joinPreprocessingDirectiveLines);", "completeLineImpl(line, &joinLines);"), f=P)
m('trim-one', ("n < str.length() && str.at(n).isSpace(); ++n", "n < 1 && str.at(n).isSpace(); ++n"), f=P)
m('trim-more', ("return str.mid(n);", "return str.mid(n + 1);"), f=P)
m('trim-nonspace', ("str.at(n).isSpace(); ++n", "!str.at(n).isLetterOrNumber(); ++n"), f=P)
m('complete-once', ("    while (!isComplete(line)) {", "    if (!isComplete(line)) {"), ("            line.continuation = LineContinuationType::None;\n            break;", "            line.continuation = LineContinuationType::None;\n            return;"), f=P)
m('complete-empty', ("        if (next.content.isNull()) {\n            line", "        if (next.content.isEmpty()) {\n            line"), f=P)
m('complete-join2', ("        join(line, next);\n", "        join(line, next);\n        if (next.content.isEmpty())\n            join(line, next);\n"), f=P)
# lines
m('line-drop', ("        if (isComplete(line))\n            line = std::move(next);", "        if (isComplete(line) || next.content.isEmpty())\n            line = std::move(next);"), f=P)
m('line-nojoin', ("        else\n            joinLines(line, next);\n        if (!isComplete(line))\n            continue;\n", "        else\n            joinLines(line, next);\n        if (!isComplete(line) && !next.content.isEmpty())\n            continue;\n"), f=P)
m('line-nodir', ("            completePreprocessingDirectiveLine(next);\n", ""), f=P)
m('line-empty', ("        if (parsePreprocessingDirective(line.content))\n            continue;\n        break;", "        if (parsePreprocessingDirective(line.content) || line.content.trimmed() == QLatin1String(\"#\"))\n            continue;\n        break;"), f=P)
m('line-macro-inline', ("if (!m_bInlineFileMode && parseMacro(line.content))", "if (parseMacro(line.content))"), f=P)
m('line-dir-lost', ("            parsePreprocessingDirective(next.content);\n            continue;", "            if (isComplete(line))\n                parsePreprocessingDirective(next.content);\n            continue;"), f=P)
# behaviour kept
m('ok-swap', ("    if (bufLength >= 2 && buf[bufLength - 2] == '\\\\') {", "    if (bufLength > 1 && m_lineBuffer[bytesRead - 2] == '\\\\') {"))
m('ok-for', ("        m_nLineNumber++;\n        const qint64 n", "        ++m_nLineNumber;\n        const qint64 n"))
m('ok-len', ("    int bufLength = static_cast<int>(bytesRead);\n", "    int bufLength = static_cast<int>(bytesRead) - 1;\n"),
  ("    if (bufLength >= 2 && buf[bufLength - 2] == '\\\\') {\n        if (bufLength >= 3 && buf[bufLength - 3] == '^') {\n            buf[bufLength - 3] = '\\\\';      // replace \"^\\\\\\n\" -> \"\\\\\\\\\\n\"\n            bufLength -= 2;                 // remove \"\\\\\\n\"\n        } else if (bufLength >= 3 && buf[bufLength - 3] == '\\\\') {\n            bufLength--;    // remove trailing \\n\n        } else {\n            bufLength -= 2; // remove \"\\\\\\n\"\n            line.continuation = LineContinuationType::Backslash;\n        }\n    } else if (bufLength >= 2 && buf[bufLength - 2] == '^') {\n        bufLength -= 2;\n        line.continuation = LineContinuationType::Caret;\n    } else {\n        bufLength--;    // remove trailing \\n\n    }",
   "    const char last = bufLength > 0 ? buf[bufLength - 1] : '\\0';\n    const char before = bufLength > 1 ? buf[bufLength - 2] : '\\0';\n    if (last == '\\\\' && before == '^') {\n        buf[bufLength - 2] = '\\\\';\n        bufLength--;\n    } else if (last == '\\\\' && before != '\\\\') {\n        bufLength--;\n        line.continuation = LineContinuationType::Backslash;\n    } else if (last == '^') {\n        bufLength--;\n        line.continuation = LineContinuationType::Caret;\n    }"))
m('ok-helper', ("    MakefileLine line;\n    char* buf = m_lineBuffer;\n", "    return lineFromBuffer(m_lineBuffer, bytesRead);\n}\n\nstatic MakefileLine lineFromBuffer2();\nMakefileLine lineFromBuffer(char *buf, size_t bytesRead)\n{\n    MakefileLine line;\n"), ("/**\n * readLine implementation optimized", "MakefileLine lineFromBuffer(char *buf, size_t bytesRead);\n/**\n * readLine implementation optimized"))
m('ok-uni', ("    } else if (str.endsWith(QLatin1String(\"\\\\\\\\\"))) {\n        // Do nothing. Double backslash at the end is not altered.\n    } else if (str.endsWith(QLatin1Char('\\\\'))) {", "    } else if (str.endsWith(QLatin1Char('\\\\')) && !str.endsWith(QLatin1String(\"\\\\\\\\\"))) {"))
m('ok-uni-left', ("        str.chop(1);\n        line.continuation = LineContinuationType::Caret;", "        str = str.left(str.length() - 1);\n        line.continuation = LineContinuationType::Caret;"))
m('ok-uni-first', ("    if (str.isNull())\n        return line;\n", "    if (str.isNull())\n        return MakefileLine();\n"))
m('ok-loop', ("        while (m_lineBuffer[bytesRead - 1] != '\\n') {\n            if (m_file.atEnd()) {", "        for (;;) {\n            if (m_lineBuffer[bytesRead - 1] == '\\n')\n                break;\n            if (m_file.atEnd()) {"))
m('ok-trim', ("    int n = 0;\n    for (; n < str.length() && str.at(n).isSpace(); ++n);\n", "    int n = 0;\n    const int length = str.length();\n    while (n != length && n < length && str.at(n).isSpace())\n        ++n;\n"), f=P)
m('ok-join', ("    if (line.continuation == LineContinuationType::Backslash)\n        line.content += QLatin1Char(' ');\n    else if (line.continuation == LineContinuationType::Caret)\n        line.content += QLatin1Char('\\n');\n", "    switch (line.continuation) {\n    case LineContinuationType::Backslash:\n        line.content.append(QLatin1Char(' '));\n        break;\n    case LineContinuationType::Caret:\n        line.content.append(QLatin1Char('\\n'));\n        break;\n    case LineContinuationType::None:\n        break;\n    }\n"), f=P)
m('ok-basic', ("    MakefileLine line = m_fileStack.top().reader->readLine(m_bInlineFileMode);\n    while (line.content.isNull()) {\n        delete m_fileStack.top().reader;\n        m_fileStack.pop();\n        if (m_fileStack.isEmpty())\n            break;\n        line = m_fileStack.top().reader->readLine(m_bInlineFileMode);\n    }\n    return line;", "    while (!m_fileStack.isEmpty()) {\n        MakefileLineReader *reader = m_fileStack.top().reader;\n        const MakefileLine line = reader->readLine(m_bInlineFileMode);\n        if (!line.content.isNull())\n            return line;\n        delete reader;\n        m_fileStack.pop();\n    }\n    return {};"), ("    if (m_fileStack.isEmpty())\n        return {};\n\n", ""), f=P)
m('ok-lines', ("        if (!isComplete(line))\n            continue;\n        if (!m_bInlineFileMode && parseMacro(line.content))\n            continue;\n        if (parsePreprocessingDirective(line.content))\n            continue;\n        break;", "        if (isComplete(line)) {\n            const bool isMacro = !m_bInlineFileMode && parseMacro(line.content);\n            if (!isMacro && !parsePreprocessingDirective(line.content))\n                break;\n        }"), f=P)
m('ok-complete', ("        if (next.content.isNull()) {\n            line.continuation = LineContinuationType::None;\n            break;\n        }\n        join(line, next);", "        if (!next.content.isNull()) {\n            join(line, next);\n            continue;\n        }\n        line.continuation = LineContinuationType::None;"), f=P)
m('ok-open', ("    if (fileEncoding == FCLatin1) {\n        m_readLineImpl = &NMakeFile::MakefileLineReader::readLine_impl_local8bit;\n    } else {", "    m_readLineImpl = &NMakeFile::MakefileLineReader::readLine_impl_local8bit;\n    if (fileEncoding != FCLatin1) {"))
m('ok-raw', ("        if (m_textStream.device()) {", "        if (m_textStream.device() != nullptr) {"))
