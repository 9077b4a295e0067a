SEEDS = []


def seed(id, property, needs, breaks, edits, demo, files=None):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, files=files))


D = 'jomlib/dependencygraph.cpp'
T = 'jomlib/targetexecutor.cpp'
C = 'jomlib/commandexecutor.cpp'

seed('C01-shared-dependent', 'C01', 'two targets share a slow dependent, /J 2 or more',
     'a dependent that the construction of the graph has already met through another target is not linked to further targets: they start before it is finished',
     [(D, "        if (child)\n            addEdge(node, child);\n        else\n            child = createNode(dependent, node);\n\n        internalBuild(child, seen);",
          "        if (child) {\n            if (seen.contains(child))\n                continue;   // this part of the graph is already there\n            addEdge(node, child);\n        } else {\n            child = createNode(dependent, node);\n        }\n\n        internalBuild(child, seen);")],
     '''
cat > mk <<'M'
all: first second
first: shared
	run first 10 0
second: shared quick
	run second 10 0
quick:
	run quick 10 0
shared:
	run shared 800 0
M
jom /f mk /j 3
before "END run shared" "START run second" || broken "second did not wait for its dependent shared"
before "END run shared" "START run first" || broken "first did not wait for its dependent shared"
''')

seed('C02-twice-with-A', 'C02', '/A and /J 2 or more, with a command that takes a while',
     'with /A a target that is being executed is not marked: it is started a second time',
     [(D, "            if (leaf->state != Node::Unbuildable)\n                leaf->state = Node::ExecutingState;\n            displayNodeBuildInfo(leaf, ignoreTimeStamps ? isTargetUpToDate(leaf->target) : false);\n            return leaf->target;",
          "            bool isUpToDate = false;\n            if (ignoreTimeStamps)\n                isUpToDate = isTargetUpToDate(leaf->target);\n            else if (leaf->state != Node::Unbuildable)\n                leaf->state = Node::ExecutingState;\n            displayNodeBuildInfo(leaf, isUpToDate);\n            return leaf->target;")],
     '''
cat > mk <<'M'
all: one two
one:
	run one 600 0
two:
	run two 600 0
M
jom /f mk /a /j 2
for t in one two; do
    [ "$(grep -c "START run $t" "$FAKEJOM_LOG")" = 1 ] || broken "$t was started more than once"
done
''')

seed('C03-token-after-failure', 'C03', 'a command fails while the token for the next target has not arrived yet',
     'a token that arrives while the build is aborted starts the next target although a command has failed',
     [(T, "    Q_ASSERT(m_nextTarget);\n\n    if (m_bAborted)\n        return;\n\n    try {", "    Q_ASSERT(m_nextTarget);\n\n    try {")],
     '''
cat > mk <<'M'
all: one two
one:
	hold 1500
	run one 300 1
two:
	run two 10 0
M
jom /f mk /j 2
grep -q "START run two" "$FAKEJOM_LOG" && broken "two was started after one had failed"
[ $rc = 2 ] || broken "exit status"
''')

seed('C04-pseudo-target-between', 'C04', '/K, and a target without commands between the failed one and its dependent',
     'with /K a target is built although one of its indirect dependents failed, if the target in between has no commands',
     [(D, "    foreach (Node *parent, node->parents) {\n        parent->state = Node::Unbuildable;\n        markParentsRecursivlyUnbuildable(parent);\n    }",
          "    foreach (Node *parent, node->parents) {\n        if (parent->target->m_commands.isEmpty())\n            continue;   // nothing to build there\n        parent->state = Node::Unbuildable;\n        markParentsRecursivlyUnbuildable(parent);\n    }")],
     '''
cat > mk <<'M'
final: group
	run final 10 0
group: bad good
bad:
	run bad 10 1
good:
	run good 10 0
M
jom /f mk /k
grep -q "START run final" "$FAKEJOM_LOG" && broken "final was built although bad failed"
grep -q "START run good" "$FAKEJOM_LOG" || broken "good was not built"
''')

seed('C05-last-target-wins', 'C05', '/K and several targets on the command line, of which an earlier one fails',
     'with /K the exit status only regards the last requested target',
     [(T, "                    m_depgraph->clear();\n                    m_makefile->invalidateTimeStamps();\n", "                    m_depgraph->clear();\n                    m_allCommandsSuccessfullyExecuted = true;\n                    m_makefile->invalidateTimeStamps();\n")],
     '''
cat > mk <<'M'
bad:
	run bad 10 1
good:
	run good 10 0
M
jom /f mk /k good bad
[ $rc != 0 ] || broken "exit status 0 although bad failed"
jom /f mk /k bad good
[ $rc != 0 ] || broken "exit status 0 although bad failed"
''')

seed('C06-pending-dropped', 'C06', 'several requested targets, the first of them up to date',
     'if nothing has to be done for a requested target the targets after it are not built',
     [(T, "                if (m_pendingTargets.isEmpty()) {\n                    finishBuild(0);", "                if (m_pendingTargets.isEmpty() || m_depgraph->isEmpty() && !m_processes.first()->target()) {\n                    finishBuild(0);")],
     '''
touch there
cat > mk <<'M'
there:
	run there 10 0
other:
	run other 10 0
M
jom /f mk there other
grep -q "START run other" "$FAKEJOM_LOG" || broken "other was not built"
''')

seed('C12-start-without-token', 'C12', '/J 3 while another process holds a job token',
     'a target is started beside a running one without a job token if no token was asked for yet: more commands run than the job server allows',
     [(T, "            if (numberOfRunningProcesses() == 0) {\n                // Use up", "            if (m_jobAcquisitionCount == 0 && m_pendingTargets.isEmpty()) {\n                // Use up")],
     '''
cat > mk <<'M'
all: one two three
one:
	hold 3000
	run one 1200 0
two:
	run two 1200 0
three:
	run three 1200 0
M
jom /f mk /j 2
n=$(sed -n '1,/RELEASE/p' "$FAKEJOM_LOG" | grep -o "START run.* running=[0-9]*" | sed 's/.*=//' | sort -n | tail -1)
[ "${n:-0}" = 1 ] || broken "$n commands were running although the only token was taken"
[ $rc = 0 ] || broken "exit status"
''')

seed('C14-cd-in-dry-run', 'C14', '/N and a makefile that uses set or cd',
     'in a dry run the builtin commands set and cd are executed, so that a cd to a directory that is yet to be made fails',
     [(C, "    if (m_pTarget->makefile()->options()->dryRun || (rexShellComment.indexIn(commandLine) >= 0))\n    {", "    if (rexShellComment.indexIn(commandLine) >= 0) {"),
      (C, "    bool executionSucceeded = false;\n", "    if (m_pTarget->makefile()->options()->dryRun) {\n        onProcessFinished(0, Process::NormalExit);\n        return;\n    }\n\n    bool executionSucceeded = false;\n")],
     '''
cat > mk <<'M'
all:
	run one 10 0
	cd notyet
	run two 10 0
M
jom /f mk /n
[ $rc = 0 ] || broken "exit status of the dry run"
grep -q "run two" "$scratch/out" || broken "the last command was not printed"
''')

seed('C15-ignored-for-good', 'C15', 'a command that can be started neither directly nor by the shell',
     'after a command could not be started directly all errors of the process are ignored: if the shell cannot be started either, the target never ends',
     [(C, "        executionSucceeded = m_process.isRunning();\n        m_ignoreProcessErrors = false;\n", "        executionSucceeded = m_process.isRunning();\n        if (executionSucceeded)\n            m_ignoreProcessErrors = false;\n")],
     '''
mkdir sub
cat > mk <<'M'
all:
	cd sub
	rmsub
	nostart something
M
# the directory vanishes before the command is started
sed -i 's/rmsub/touch ..\\/gone/' mk
( while [ ! -e gone ]; do sleep 0.01; done ) &
cat > mk <<'M'
all: one two
one:
	cd sub
	run wait 1500 0
	nostart something
two:
	run two 10 0
M
( sleep 1.2; rmdir sub ) &
LIMIT=20 jom /f mk
[ $rc = 2 ] || broken "jom did not end with an error"
''')

seed('C16-silent-as-last', 'C16', '/S on the command line together with commands marked @',
     'a command marked @ is printed if all commands are to be silent',
     [(C, "        || (!cmd.m_silent && !m_pTarget->makefile()->options()->suppressExecutedCommandsDisplay))", "        || cmd.m_silent == m_pTarget->makefile()->options()->suppressExecutedCommandsDisplay)")],
     '''
cat > mk <<'M'
all:
	@run hidden 10 0
	run shown 10 0
M
jom /f mk
grep -q "run hidden" "$scratch/out" && broken "a silent command was printed"
grep -q "run shown" "$scratch/out" || broken "a command was not printed"
jom /f mk /s
grep -q "run " "$scratch/out" && broken "a command was printed in spite of /S"
''')

seed('C17-named-files-stay', 'C17', 'an inline file with a name of its own and without KEEP',
     'inline files that the makefile gives a name are never removed',
     [(C, "            tempFile.keep = inlineFile->m_keep;", "            tempFile.keep = inlineFile->m_keep || fileName == inlineFile->m_filename;")],
     '''
cat > mk <<'M'
all:
	cat <<named.txt
some text
<<NOKEEP
	cat <<kept.txt
other text
<<KEEP
M
jom /f mk
grep -q "some text" "$FAKEJOM_LOG" || broken "the inline file had not its text"
[ -e named.txt ] && broken "the inline file is still there"
[ -e kept.txt ] || broken "the inline file was to be kept"
''')

seed('C18-set-one-way', 'C18', '/J 2, and a variable that is set by a command of the job created last',
     'variables set by one job do not reach the jobs created before it',
     [(T, "            connect(executor, SIGNAL(environmentChanged(const ProcessEnvironment &)),\n                    other, SLOT(setEnvironment(const ProcessEnvironment &)));\n            connect(other,", "            connect(other,")],
     '''
cat > mk <<'M'
all: first second third
first:
	run first 600 0
second:
	set FOO=bar
	run second 1500 0
third: first
	env FOO
M
jom /f mk /j 2
grep -q "ENV FOO=bar" "$FAKEJOM_LOG" || broken "the variable did not reach the other job"
''')

seed('C33-quoted-drive', 'C33', 'a quoted name with a drive letter that is not the first in the line',
     'a colon behind a drive letter in double quotes is taken for the separator',
     [('jomlib/parser.cpp', """                if (ch2.isSpace() || ch2 == QLatin1Char('"'))
                    continue;""", """                if (ch2.isSpace())
                    continue;""")],
     '''
mkdir -p "$PWD/deep"
cat > mk <<'M'
all: second "z:odd.txt"
	run all 0 0
"z:odd.txt" : first
	run odd 0 0
first second:
	run $@ 0 0
M
LIMIT=20
jom /f mk
grep -q "START run odd" "$FAKEJOM_LOG" || broken "the target on another drive was not made"
grep -q "START run all" "$FAKEJOM_LOG" || broken "the default target was not made"
''')

seed('C34-outermost-first', 'C34', 'a file of the same name in the directories of two including makefiles',
     'the directories of the including makefiles are searched from the outermost one',
     [('jomlib/preprocessor.cpp', """    for (QStack<TextFile>::const_iterator it = m_fileStack.constEnd();
         it != m_fileStack.constBegin();) {
        --it;
        fi.setFile""", """    for (QStack<TextFile>::const_iterator it = m_fileStack.constBegin();
         it != m_fileStack.constEnd(); ++it) {
        fi.setFile""")],
     '''
mkdir -p one two
echo 'WHAT=outer' > one/what.mak
echo 'WHAT=inner' > two/what.mak
echo '!include two/next.mak' > one/begin.mak
echo '!include what.mak' > two/next.mak
cat > mk <<'M'
!include one/begin.mak
all:
	run $(WHAT) 0 0
M
jom /f mk
grep -q "START run inner" "$FAKEJOM_LOG" || broken "the file of the innermost directory was not included"
''')
