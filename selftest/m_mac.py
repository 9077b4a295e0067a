T='macrotable.cpp'; F='makefilefactory.cpp'; O='options.cpp'; H='macrotable.h'
WR="    if (ignoreReadOnly || !result->isReadOnly)\n        result->value = newValue;\n"
MUTANTS=[
 ('mac-ro-ignored',['C25'],[(T,WR,"    result->value = newValue;\n")]),
 ('mac-ro-inv',['C25'],[(T,WR,"    if (ignoreReadOnly || result->source != MacroSource::CommandLine)\n        result->value = newValue;\n")]),
 ('mac-cmd-notro',['C25'],[(T,"    macroData->source = source;\n    macroData->isReadOnly = true;","    macroData->source = source;\n    macroData->isReadOnly = source == MacroSource::CommandLine;")]),
 ('mac-env-ro',['C25'],[(T,"    macroData->isReadOnly = readOnly;\n","")]),
 ('mac-env-src',['C25'],[(T,"    macroData->source = MacroSource::Environment;\n    macroData->isReadOnly","    macroData->isReadOnly")]),
 ('mac-env-raw',['C25'],[(T,"    setEnvironmentVariable(upperName, expandedValue);\n}","    setEnvironmentVariable(upperName, value);\n}")]),
 ('mac-env-name',['C25'],[(T,"    setEnvironmentVariable(upperName, expandedValue);\n}","    setEnvironmentVariable(name, expandedValue);\n}")]),
 ('mac-env-exp',['C25'],[(T,"        macroData = internalSetMacroValue(upperName, value);","        macroData = internalSetMacroValue(upperName, expandedValue);")]),
 ('mac-env-over',['C25'],[(T,"    if (m_macros.contains(upperName)) {\n        MacroData &md = m_macros[upperName];","    if (m_macros.contains(name)) {\n        MacroData &md = m_macros[upperName];"),(T,"        return;\n    }\n    QString expandedValue;","        if (md.isReadOnly)\n            return;\n    }\n    QString expandedValue;")]),
 ('mac-env-ret',['C25'],[(T,"            setEnvironmentVariable(upperName, expandMacros(md.value));\n        }\n        return;","            setEnvironmentVariable(upperName, expandMacros(md.value));\n            return;\n        }")]),
 ('mac-env-cmdexport',['C25'],[(T,"            setEnvironmentVariable(upperName, expandMacros(md.value));\n        }\n        return;","        }\n        return;")]),
 ('mac-cmd-export',['C25'],[(T,"    defineCommandLineMacroValueImpl(name, value, MacroSource::CommandLineImplicit);\n    setEnvironmentVariable(name, expandMacros(value));","    defineCommandLineMacroValueImpl(name, value, MacroSource::CommandLineImplicit);")]),
 ('mac-cmd-raw',['C25'],[(T,"    defineCommandLineMacroValueImpl(name, value, MacroSource::CommandLine);\n    setEnvironmentVariable(name, expandMacros(value));","    defineCommandLineMacroValueImpl(name, value, MacroSource::CommandLine);\n    setEnvironmentVariable(name, value);")]),
 ('mac-cmd-src',['C25'],[(T,"    defineCommandLineMacroValueImpl(name, value, MacroSource::CommandLineImplicit);","    defineCommandLineMacroValueImpl(name, value, MacroSource::CommandLine);")]),
 ('mac-make-env',['C25'],[(T,"    if (macroData->source == MacroSource::Environment)\n        setEnv","    if (macroData->source == MacroSource::Environment && !macroData->isReadOnly && source == MacroSource::Predefinition)\n        setEnv")]),
 ('mac-make-raw',['C25'],[(T,"setEnvironmentVariable(expandMacros(name), expandMacros(macroData->value));","setEnvironmentVariable(expandMacros(name), macroData->value);")]),
 ('mac-make-all',['C25'],[(T,"    if (macroData->source == MacroSource::Environment)\n        setEnv","    if (macroData->source != MacroSource::MakeFile)\n        setEnv")]),
 ('mac-make-lost',['C25'],[(T,"    else\n        macroData->source = source;","    macroData->source = source;")]),
 ('mac-pre-over',['C25'],[(T,"    if (isMacroDefined(name))\n        return;\n","")]),
 ('mac-name',['C25'],[(T,"    if (!isMacroNameValid(expandedName))\n        return 0;","    if (!isMacroNameValid(expandedName) && !ignoreReadOnly)\n        return 0;")]),
 ('mac-name2',['C25'],[(T,"    if (!isMacroNameValid(expandedName))\n        return 0;","    if (expandedName.isEmpty())\n        return 0;")]),
 ('mac-order-env',['C25'],[(F,"    readEnvironment(m_environment, macroTable, options->overrideEnvVarMacros);\n",""),(F,"    QString filename;\n    if (!options->read","    readEnvironment(m_environment, macroTable, options->overrideEnvVarMacros);\n    QString filename;\n    if (!options->read")]),
 ('mac-order-pre',['C25'],[(F,"    readEnvironment(m_environment, macroTable, options->overrideEnvVarMacros);\n",""),(F,"    try {\n        m_makefile","    readEnvironment(m_environment, macroTable, options->overrideEnvVarMacros);\n    try {\n        m_makefile")]),
 ('mac-order-set',['C25'],[(F,"    macroTable->setEnvironment(m_environment);\n",""),(F,"    readEnvironment(m_env","    macroTable->setEnvironment(m_environment);\n    readEnvironment(m_env")]),
 ('mac-E',['C25'],[(F,"options->overrideEnvVarMacros);","!options->ignorePredefinedRulesAndMacros);")]),
 ('mac-skip',['C25'],[(F,"        macroTable->defineEnvironmentMacroValue(it.key()","        if (!it.value().isEmpty())\n            macroTable->defineEnvironmentMacroValue(it.key()")]),
 ('mac-implicit',['C25'],[(O,"if (upperName != name && !explicitlyDefinedMacros.contains(upperName)) {","if (upperName != name) {")]),
 ('mac-friend',['C25'],[(H,"    void undefineMacro(const QString& name);","    void undefineMacro(const QString& name);\n    void resetMacro(const QString &name) { m_macros[name].value.clear(); }")]),
 ('mac-self',['C25'],[(T,"    replaceStringWithLazyValue(newValue, instantiatedName, MacroValueOp(this, expandedName));\n","")]),
 ('ok-mac-find',['C25'],[(T,"    if (m_macros.contains(upperName)) {\n        MacroData &md = m_macros[upperName];","    if (isMacroDefined(upperName)) {\n        MacroData &md = m_macros[upperName];")]),
 ('ok-mac-inv',['C25'],[(T,WR,"    if (!ignoreReadOnly && result->isReadOnly)\n        return result;\n    result->value = newValue;\n")]),
 ('ok-mac-ref',['C25'],[(T,"    result = &m_macros[expandedName];\n"+WR,"    MacroData &data = m_macros[expandedName];\n    result = &data;\n    if (ignoreReadOnly || !data.isReadOnly)\n        data.value = newValue;\n")]),
 ('ok-mac-else',['C25'],[(T,"    if (macroData->source == MacroSource::Environment)\n        setEnvironmentVariable(expandMacros(name), expandMacros(macroData->value));\n    else\n        macroData->source = source;","    if (macroData->source != MacroSource::Environment) {\n        macroData->source = source;\n        return;\n    }\n    const QString expandedValue = expandMacros(macroData->value);\n    setEnvironmentVariable(expandMacros(name), expandedValue);")]),
 ('ok-mac-insert',['C25'],[(T,"    m_environment[name] = value;","    m_environment.insert(name, value);")]),
 ('ok-mac-cmd',['C25'],[(T,"    defineCommandLineMacroValueImpl(name, value, MacroSource::CommandLine);\n    setEnvironmentVariable(name, expandMacros(value));","    MacroData *data = internalSetMacroValue(name, value, true);\n    if (data) {\n        data->isReadOnly = true;\n        data->source = MacroSource::CommandLine;\n    }\n    const QString expanded = expandMacros(value);\n    setEnvironmentVariable(name, expanded);")]),
 ('ok-mac-readenv',['C25'],[(F,"    ProcessEnvironment::const_iterator it = environment.begin();\n    for (; it != environment.end(); ++it)\n        macroTable->defineEnvironmentMacroValue(it.key().toQString(), it.value(), forceReadOnly);","    for (ProcessEnvironment::const_iterator it = environment.begin(), end = environment.end(); it != end; ++it) {\n        const QString name = it.key().toQString();\n        macroTable->defineEnvironmentMacroValue(name, it.value(), forceReadOnly);\n    }")]),
 ('ok-mac-predef',['C25'],[(F,"bool MakefileFactory::apply(","static void definePredefinedMacros(MacroTable *macroTable)\n{\n    macroTable->predefineValue(\"RC\", \"rc\");       // Resource Compiler\n    macroTable->predefineValue(\"RCFLAGS\", QString());\n}\n\nbool MakefileFactory::apply("),(F,'        macroTable->predefineValue("RC", "rc");       // Resource Compiler\n        macroTable->predefineValue("RCFLAGS", QString());\n','        definePredefinedMacros(macroTable);\n')]),
]
