P = 'preprocessor.cpp'
C = ['C34']
def m(name, old, new, c=C): return (name, c, [(P, old, new)])
SELF = '''    QFileInfo fi(filePath);
    if (fi.exists())
        return fi.absoluteFilePath();
'''
PARENT = '''    for (QStack<TextFile>::const_iterator it = m_fileStack.constEnd();
         it != m_fileStack.constBegin();) {
        --it;
        fi.setFile(it->fileDirectory + QLatin1Char('/') + filePath);
        if (fi.exists())
            return fi.absoluteFilePath();
    }
'''
INC = '''        foreach (const QString& includeDir, includeDirs) {
            fi.setFile(includeDir + QLatin1Char('/') + filePath);
            if (fi.exists())
                return fi.absoluteFilePath();
        }
'''
ANGLE = '''    if (filePath.startsWith(QLatin1Char('<')) && filePath.endsWith(QLatin1Char('>'))) {
        angleBrackets = true;
        filePath.chop(1);
        filePath.remove(0, 1);
    }
'''
CYC = '''    foreach (const TextFile& tf, m_fileStack)
        if (tf.reader->fileName() == fileName)
            error(QLatin1String("cycle in include files: ") + fileInfo.fileName());
'''
EXISTS = '''    if (!fileInfo.exists()) {
        QString msg = QLatin1String("File %1 doesn't exist.");
        error(msg.arg(origFileName));
    }
'''
PUSH = '''    m_fileStack.push(TextFile());
    TextFile& textFile = m_fileStack.top();
    textFile.reader = reader;
    textFile.fileDirectory = fileInfo.absolutePath();
'''
MUTANTS = [
    m('self-none', SELF, '    QFileInfo fi;\n'),
    m('self-last', SELF + '\n    // Search recursively through all directories of all parent makefiles.\n' + PARENT, '    QFileInfo fi;\n' + PARENT + SELF.replace('QFileInfo fi(filePath);', 'fi.setFile(filePath);')),
    m('self-not-angle', '    if (fi.exists())\n        return fi.absoluteFilePath();\n\n    // Search', '    if (!angleBrackets && fi.exists())\n        return fi.absoluteFilePath();\n\n    // Search'),
    m('parent-none', PARENT, ''),
    m('parent-only-top', PARENT, '''    if (!m_fileStack.isEmpty()) {
        fi.setFile(m_fileStack.top().fileDirectory + QLatin1Char('/') + filePath);
        if (fi.exists())
            return fi.absoluteFilePath();
    }
'''),
    m('parent-forward', PARENT, '''    for (QStack<TextFile>::const_iterator it = m_fileStack.constBegin();
         it != m_fileStack.constEnd(); ++it) {
        fi.setFile(it->fileDirectory + QLatin1Char('/') + filePath);
        if (fi.exists())
            return fi.absoluteFilePath();
    }
'''),
    m('parent-foreach', PARENT, '''    foreach (const TextFile &tf, m_fileStack) {
        fi.setFile(tf.fileDirectory + QLatin1Char('/') + filePath);
        if (fi.exists())
            return fi.absoluteFilePath();
    }
'''),
    m('parent-break', PARENT, PARENT.replace('            return fi.absoluteFilePath();\n', '            return fi.absoluteFilePath();\n        if (angleBrackets)\n            break;\n')),
    m('parent-wrong-name', "it->fileDirectory + QLatin1Char('/') + filePath);", "it->fileDirectory + QLatin1Char('/') + filePathToInclude);"),
    m('parent-not-angle', PARENT, '    if (!angleBrackets) {\n' + PARENT + '    }\n'),
    m('parent-returns-name', PARENT, PARENT.replace('return fi.absoluteFilePath()', 'return filePath')),
    m('inc-always', '    if (angleBrackets) {\n', '    if (true) {\n'),
    m('inc-never', '    if (angleBrackets) {\n', '    if (false) {\n'),
    m('inc-not-angle', '    if (angleBrackets) {\n', '    if (!angleBrackets) {\n'),
    m('inc-raw', 'expandMacros(QLatin1String("$(INCLUDE)"))', 'macroValue(QLatin1String("INCLUDE"))'),
    m('inc-lib', '$(INCLUDE)', '$(LIB)'),
    m('inc-first', INC, INC.replace('                return fi.absoluteFilePath();\n', '                return fi.absoluteFilePath();\n            break;\n')),
    m('inc-reverse', INC, '''        for (int i = includeDirs.count() - 1; i >= 0; --i) {
            fi.setFile(includeDirs.at(i) + QLatin1Char('/') + filePath);
            if (fi.exists())
                return fi.absoluteFilePath();
        }
'''),
    m('inc-returns-dir', INC, INC.replace('return fi.absoluteFilePath()', 'return includeDir')),
    m('inc-last-wins', INC, '''        QString found;
''' + INC.replace('return fi.absoluteFilePath()', 'found = fi.absoluteFilePath()') + '''        if (!found.isNull())
            return found;
'''),
    m('angle-or', "startsWith(QLatin1Char('<')) && filePath", "startsWith(QLatin1Char('<')) || filePath"),
    m('angle-not-set', '        angleBrackets = true;\n', ''),
    m('angle-inverted', ANGLE, ANGLE.replace("'<'", "'#'").replace("'>'", "'<'").replace("'#'", "'>'")),
    m('nothing-no-error', '    error(msg.arg(filePathToInclude));\n    return QString();', '    return QString();'),
    m('nothing-name', '    error(msg.arg(filePathToInclude));\n    return QString();', '    return filePath;'),
    m('cycle-none', CYC, ''),
    m('cycle-top', CYC, '''    if (!m_fileStack.isEmpty() && m_fileStack.top().reader->fileName() == fileName)
        error(QLatin1String("cycle in include files: ") + fileInfo.fileName());
'''),
    m('cycle-not-first', CYC, '''    for (int i = 1; i < m_fileStack.count(); ++i)
        if (m_fileStack.at(i).reader->fileName() == fileName)
            error(QLatin1String("cycle in include files: ") + fileInfo.fileName());
'''),
    m('cycle-orig', CYC, CYC.replace('== fileName', '== origFileName')),
    m('cycle-rel-reader', 'new MakefileLineReader(fileName)', 'new MakefileLineReader(origFileName)'),
    m('cycle-dir', CYC, CYC.replace('tf.reader->fileName() == fileName', 'tf.fileDirectory == fileName')),
    m('cycle-late', CYC + '\n    MakefileLineReader* reader = new MakefileLineReader(fileName);', '    MakefileLineReader* reader = new MakefileLineReader(fileName);'),
    m('open-no-error', '        error(QLatin1Literal("Can\'t open ") + origFileName);\n', '        return false;\n'),
    m('open-ignored', '        delete reader;\n        error(QLatin1Literal("Can\'t open ") + origFileName);\n', '        qWarning("cannot open");\n'),
    m('push-no-dir', '    textFile.fileDirectory = fileInfo.absolutePath();\n', ''),
    m('push-parent-dir', 'textFile.fileDirectory = fileInfo.absolutePath();', 'textFile.fileDirectory = m_fileStack.first().fileDirectory;'),
    m('push-cwd', 'textFile.fileDirectory = fileInfo.absolutePath();', 'textFile.fileDirectory = QDir::currentPath();'),
    m('push-twice', PUSH, '    m_fileStack.push(TextFile());\n' + PUSH),
    m('push-once-only', PUSH, '    if (m_fileStack.count() > 50)\n        return false;\n' + PUSH),
    # refactorings
    m('ok-self-static', SELF, '''    if (QFileInfo(filePath).exists())
        return QFileInfo(filePath).absoluteFilePath();
    QFileInfo fi;
'''),
    m('ok-self-if', SELF, '''    QFileInfo fi(filePath);
    const bool found = fi.exists();
    if (found)
        return fi.absoluteFilePath();
'''),
    m('ok-parent-index', PARENT, '''    for (int i = m_fileStack.count() - 1; i >= 0; --i) {
        fi.setFile(m_fileStack.at(i).fileDirectory + QLatin1Char('/') + filePath);
        if (fi.exists())
            return fi.absoluteFilePath();
    }
'''),
    m('ok-parent-index2', PARENT, '''    for (int i = m_fileStack.count(); --i >= 0;) {
        const QString candidate = m_fileStack.at(i).fileDirectory + QLatin1Char('/') + filePath;
        fi.setFile(candidate);
        if (!fi.exists())
            continue;
        return fi.absoluteFilePath();
    }
'''),
    m('ok-parent-while', PARENT, '''    QStack<TextFile>::const_iterator it = m_fileStack.constEnd();
    while (it != m_fileStack.constBegin()) {
        --it;
        fi.setFile(it->fileDirectory + QLatin1Char('/') + filePath);
        if (fi.exists())
            return fi.absoluteFilePath();
    }
'''),
    m('ok-parent-dir', PARENT, PARENT.replace("fi.setFile(it->fileDirectory + QLatin1Char('/') + filePath);", "fi.setFile(QDir(it->fileDirectory), filePath);")),
    m('ok-inc-index', INC, '''        for (int i = 0; i < includeDirs.count(); ++i) {
            fi.setFile(includeDirs.at(i) + QLatin1Char('/') + filePath);
            if (fi.exists())
                return fi.absoluteFilePath();
        }
'''),
    m('ok-inc-info', INC, '''        foreach (const QString& includeDir, includeDirs) {
            const QFileInfo candidate(includeDir + QLatin1Char('/') + filePath);
            if (candidate.exists())
                return candidate.absoluteFilePath();
        }
'''),
    ('ok-angle-const', C, [(P, '    bool angleBrackets = false;\n' + ANGLE, '''    const bool angleBrackets = filePath.startsWith(QLatin1Char('<')) && filePath.endsWith(QLatin1Char('>'));
    if (angleBrackets) {
        filePath.chop(1);
        filePath.remove(0, 1);
    }
''')]),
    ('ok-angle-mid', C, [(P, ANGLE, '''    if (filePath.startsWith(QLatin1Char('<')) && filePath.endsWith(QLatin1Char('>'))) {
        angleBrackets = true;
        filePath = filePath.mid(1, filePath.length() - 2);
    }
''')]),
    m('ok-angle-early', '    if (angleBrackets) {\n        // Search', '''    if (!angleBrackets) {
        error(QString(QLatin1String("File %1 cannot be found.")).arg(filePathToInclude));
    } else {
        // Search'''),
    ('ok-inc-helper', C, [(P, INC, '''        const QString found = firstExisting(includeDirs, filePath);
        if (!found.isNull())
            return found;
'''), (P, '''QString Preprocessor::findIncludeFile(''', '''static QString firstExisting(const QStringList &dirs, const QString &fileName)
{
    QFileInfo fi;
    foreach (const QString &dir, dirs) {
        fi.setFile(dir + QLatin1Char('/') + fileName);
        if (fi.exists())
            return fi.absoluteFilePath();
    }
    return QString();
}

QString Preprocessor::findIncludeFile(''')]),
    ('ok-parent-helper', C, [(P, PARENT, '''    const QString inParents = findInParents(filePath);
    if (!inParents.isNull())
        return inParents;
'''), (P, '''QString Preprocessor::findIncludeFile(''', '''QString Preprocessor::findInParents(const QString &filePath)
{
    QFileInfo fi;
''' + PARENT + '''    return QString();
}

QString Preprocessor::findIncludeFile('''), ('preprocessor.h', '    QString findIncludeFile(', '    QString findInParents(const QString &filePath);\n    QString findIncludeFile(')]),
    m('ok-cycle-index', CYC, '''    for (int i = 0; i < m_fileStack.count(); ++i) {
        if (m_fileStack.at(i).reader->fileName() == fileName)
            error(QLatin1String("cycle in include files: ") + fileInfo.fileName());
    }
'''),
    m('ok-cycle-iter', CYC, '''    for (QStack<TextFile>::const_iterator it = m_fileStack.constBegin(); it != m_fileStack.constEnd(); ++it) {
        const bool same = it->reader->fileName() == fileName;
        if (same)
            error(QLatin1String("cycle in include files: ") + fileInfo.fileName());
    }
'''),
    ('ok-cycle-helper', C, [(P, CYC, '''    checkForIncludeCycle(fileName);
'''), (P, '''bool Preprocessor::internalOpenFile(''', '''void Preprocessor::checkForIncludeCycle(const QString &fileName)
{
    foreach (const TextFile& tf, m_fileStack)
        if (tf.reader->fileName() == fileName)
            error(QLatin1String("cycle in include files: ") + QFileInfo(fileName).fileName());
}

bool Preprocessor::internalOpenFile('''), ('preprocessor.h', '    QString findIncludeFile(', '    void checkForIncludeCycle(const QString &fileName);\n    QString findIncludeFile(')]),
    m('ok-push-first', PUSH, '''    TextFile textFile;
    textFile.reader = reader;
    textFile.fileDirectory = fileInfo.absolutePath();
    m_fileStack.push(textFile);
'''),
    m('ok-exists-early', EXISTS, '''    if (!fileInfo.exists())
        error(QString(QLatin1String("File %1 doesn't exist.")).arg(origFileName));
'''),
]
