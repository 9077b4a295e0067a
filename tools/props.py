"""The properties: text, anchors and how they are decided (source of properties.jsonl and MANIFEST.json)."""

TRUST = ('Sound over the paths of the extracted control flow graphs with callees inlined; trusted: clang\'s AST, the CFG lowering, '
         'the model of Qt containers and of queued/direct connections, and that no memory error occurs.')

STABLE = 'The 74 stable tests cover the preprocessor, expression parser, macro table, makefile parser and options with fixed inputs; '

PROPS = []
NA = {}


def prop(id, title, statement, over, quant, tests, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests,
                      files=['src/' + f for f in files], mech=mech, tech=tech, note=note))


prop('C01', 'A target is never started before everything it depends on is finished',
     'The commands of a target start only after every target it directly or indirectly depends on has been built successfully, found up to '
     'date, or given up under /K. This holds whatever the shape of the dependency graph, the number of jobs and the order in which '
     'commands finish.',
     ['schedules', 'inputs'], 'every makefile graph, job count and completion order',
     STABLE + 'no test executes a target graph at all, and an ordering bug needs a particular graph and schedule.',
     ['jomlib/dependencygraph.cpp', 'jomlib/targetexecutor.cpp'],
     'edges in both directions for every dependent; nodes become startable only with an empty list of unbuilt dependents; a node leaves '
     'the graph only when finished',
     'path-sensitive typestate and must-happen dataflow over the graph code',
     'Every site that adds an edge, makes a node startable, hands it out or retires it is checked on every path.')
prop('C02', 'No target is started twice and running targets are never retired early',
     'The commands of one target are started at most once per requested build: a target that is being executed is not handed out a second '
     'time and does not leave the dependency graph before its commands ended.',
     ['schedules', 'inputs'], 'every graph, job count and completion order',
     STABLE + 'double execution depends on two executors asking for work at the wrong moment.',
     ['jomlib/dependencygraph.cpp', 'jomlib/targetexecutor.cpp'],
     'state of graph nodes, set of startable nodes, the one pending target of the executor',
     'typestate analysis of graph nodes', 'All sites that hand out or retire nodes are decided on every path.')
prop('C03', 'Without /K a failed command stops the build',
     'When a command fails and /K is not given, no further command line of that target and no further target is started, running commands '
     'are awaited, and jom ends with a non-zero status. Nothing revokes this once the failure was noticed.',
     ['schedules', 'fault_sequences'], 'every failing command, whatever else is running or waiting for a job token at that moment',
     STABLE + 'none runs commands; a start after a failure needs a second job finishing or a token arriving in a particular window.',
     ['jomlib/targetexecutor.cpp', 'jomlib/commandexecutor.cpp', 'jomlib/process.cpp'],
     'abort mark set before the event loop runs again; every place that starts something tests it',
     'path-sensitive dataflow with facts on the abort mark', 'Decided for every slot of the executor.')
prop('C04', 'With /K only targets that depend on the failed one are skipped, and all of them',
     'With /K, after a failure every target that directly or indirectly depends on the failed one is left unbuilt, and the build goes on '
     'with the others. The failure is not forgotten: the build does not end with status 0.',
     ['schedules', 'fault_sequences', 'inputs'], 'every graph and every set of failing commands',
     STABLE + 'the skipped set is a property of every graph and every point of failure.',
     ['jomlib/targetexecutor.cpp', 'jomlib/dependencygraph.cpp'],
     'recursive marking of dependents before the failed node is removed; the mark is sticky and tested before starting',
     'must-happen and loop-coverage dataflow', 'The marking is checked to cover all dependents recursively.')
prop('C05', 'The exit status tells whether the build succeeded',
     'jom ends with status 0 only if every requested target was built or up to date, nothing is still running, and no command failed. '
     'A wrong command line ends with 128, an unreadable makefile with 2, every other error with a non-zero status.',
     ['inputs', 'schedules', 'fault_sequences'], 'every way a build can end',
     STABLE + 'the status of the program is never looked at.',
     ['jomlib/targetexecutor.cpp', 'app/main.cpp', 'app/application.cpp', 'jomlib/makefilefactory.cpp'],
     'announced status of the end of the build, its connection to the application, return values of main',
     'path-sensitive value-set dataflow', 'All emissions of the end of the build and all returns of main are decided.')
prop('C09', 'Cyclic dependencies are diagnosed before anything is executed',
     'A cycle among the dependencies of the requested targets, of whatever length and also through targets only reachable by inference '
     'rules or by an equivalent path, is reported as an error before any command is executed; acyclic makefiles are not rejected.',
     ['inputs'], 'every dependency graph',
     STABLE + 'one cycle of fixed shape is tested.',
     ['jomlib/parser.cpp', 'jomlib/dependencygraph.cpp'],
     'depth-first search with a path mark that is set and cleared around the recursion, over the same lookups as the graph construction',
     'typestate of the search mark, agreement of lookups', 'Every path of the search and its callers is decided.')
prop('C10', 'Missing dependents are diagnosed unless the file exists',
     'If a target depends on a name for which there is neither a rule nor a file, jom reports that it does not know how to make it and '
     'fails, and does not execute the target; an existing file without a rule is accepted.',
     ['inputs', 'histories'], 'every makefile and every state of the file system',
     STABLE + 'the graph construction is not tested at all.',
     ['jomlib/dependencygraph.cpp', 'jomlib/targetexecutor.cpp'],
     'lookup of each dependent by name and by absolute path, existence check, diagnosis',
     'must-happen dataflow per dependent', 'Decided for every dependent on every path of the construction.')
prop('C06', 'All requested targets are built, in order; unknown ones are diagnosed',
     'The targets given on the command line are built one after the other in the order given, each one unless the build was aborted by a '
     'failure before; a name for which the makefile has no target is diagnosed before anything is executed; without a request the first '
     'target of the makefile is built, and only then.',
     ['inputs', 'histories'], 'every list of requested targets and every history of the targets built before',
     STABLE + 'no test builds a list of targets.',
     ['jomlib/targetexecutor.cpp', 'jomlib/parser.cpp', 'jomlib/makefilefactory.cpp', 'app/main.cpp'],
     'queue of pending targets filled once and emptied at its front, lookup of every requested name in the parser',
     'path-sensitive dataflow over the queue operations and the existence checks',
     'Every operation on the queue and every use of the requested names is decided on every path.')
prop('C07', 'A target is rebuilt exactly if it is missing or older than a dependent',
     'A target is found up to date only if its file exists and is not older than any of its dependents, whether these are named in the '
     'makefile or found by inference rules; a dependent that was built in this run, or that is missing, makes it out of date. A target '
     'that exists and is not older than its dependents is not rebuilt, unless /A is given. No target is started before it was examined.',
     ['inputs', 'histories', 'schedules'], 'every graph, every combination of file times and every order in which targets become startable',
     STABLE + 'file times are not compared by any of them.',
     ['jomlib/dependencygraph.cpp', 'jomlib/filetime.cpp', 'jomlib/targetexecutor.cpp', 'jomlib/makefile.cpp'],
     'comparison of the time of the target with the latest of its dependents; re-examination whenever a leaf appears',
     'path-sensitive dataflow: the facts that each answer rests on, per dependent and in sum; order of examination and selection',
     'All paths of the decision are enumerated, loops by induction over their elements.')
prop('C08', 'Decisions rest on the current state of the files',
     'What is remembered about a file is dropped when the commands of its target have ended, before anything depending on it is examined; '
     'a missing file is never remembered as missing; between two requested targets everything known about times is forgotten.',
     ['histories', 'schedules'], 'every history of commands that create or change files',
     STABLE + 'tests look at files once only.',
     ['jomlib/fastfileinfo.cpp', 'jomlib/targetexecutor.cpp', 'jomlib/makefile.cpp'],
     'cache of file attributes with invalidation by name; reset of the times of all targets',
     'must-happen dataflow over cache operations, agreement of keys', 'Every operation on the cache and every end of a target is decided; '
     'names of one file that are spelled differently are separate entries (see DESIGN.md).')
prop('C11', 'Targets listed after .SYNC wait for all dependents before it',
     'If .SYNC stands among the dependents of a description block, none of the dependents after it is started before every dependent that '
     'stands before it is finished, whether these have rules of their own or are found by inference rules; .SYNC itself is never built.',
     ['schedules', 'inputs'], 'every list of dependents with any number of .SYNC at any place',
     STABLE + 'the order shows only with several jobs and suitable run times.',
     ['jomlib/parser.cpp', 'jomlib/dependencygraph.cpp', 'jomlib/makefile.cpp'],
     'positions of .SYNC recorded while parsing, translated into additional dependencies of the targets that follow',
     'per-element dataflow over the list of dependents and the recorded groups',
     'Each element of the lists is decided on every path of the loops, by induction over the elements.')
prop('C12', 'Never more commands at a time than allowed; job tokens are balanced',
     'There are exactly as many executors as allowed jobs (one if the makefile disables parallel execution); a target is started only by an '
     'idle executor, and beyond the first only with a token of the job server; every token taken is given back exactly once, whatever way '
     'the command or the build ends; no token is requested while another request is under way.',
     ['schedules', 'histories'], 'every schedule of commands finishing, tokens arriving and builds being aborted',
     STABLE + 'tests never run two commands at once, and a leaked token shows only as lost speed or as an extra process much later.',
     ['jomlib/targetexecutor.cpp', 'jomlib/jobclient.cpp', 'app/main.cpp'],
     'pool of executors, count of acquired tokens, direct start only when nothing runs',
     'resource typestate over tokens and executors', 'Every path of the slots of the executor is decided; the number of executors is '
     'decided from the trip count of the creating loop.')

prop('C13', 'One job server per build, shared by all sub-joms',
     'The outermost jom starts a job server with one token less than there are jobs; every jom started by it, at any depth, opens that one and '
     'no other, unless /J gives another number. The key reaches the environment of every command, tokens are waited for without '
     'blocking the build, and each one acquired is announced once.',
     ['schedules', 'histories'], 'every nesting of jom calls and every order in which tokens are acquired',
     STABLE + 'the job server is used by none of them.',
     ['jomlib/jobserver.cpp', 'jomlib/jobclient.cpp', 'jomlib/jobclientacquirehelper.cpp', 'app/main.cpp'],
     'semaphore of the system whose key is handed down in the environment; helper in a thread of its own',
     'path-sensitive typestate of the hand-over, decision table of the creation, value flow of key and environment',
     'Every path from main to the executors is decided; that the semaphore of the system works is trusted.')
prop('C14', 'A dry run or /DUMPGRAPH executes nothing',
     'With /N no command of any target is started and neither the environment nor the working directory of later commands is changed; '
     'every command line that would be executed is printed instead. With /DUMPGRAPH no target is started at all, and jom ends.',
     ['inputs'], 'every makefile, command line and option combination',
     STABLE + 'no test executes commands, with or without /N.',
     ['jomlib/commandexecutor.cpp', 'jomlib/targetexecutor.cpp'],
     'test of the option before anything is executed; one function starts processes',
     'path-sensitive effect analysis of the execution of a command line; call graph reachability of process creation',
     'Every path to the start of a process, also through the call graph, is decided.')
prop('C15', 'Each command line has exactly one result, and it decides what follows',
     'The command lines of a target are executed one at a time, from the first to the last, each once. Each one has exactly one result: '
     'the status of its process, or a failure if it crashed or could not be started. A status above the one allowed by the command '
     'modifier fails the target and nothing more of it is executed; otherwise the next command follows, and the target is built after '
     'the last one. No command is lost.',
     ['schedules', 'inputs', 'crash points'], 'every command, exit status (as unsigned number) and order of process events',
     STABLE + 'no test executes a command; crashes, failures to start and notifications that come together need particular timing.',
     ['jomlib/commandexecutor.cpp', 'jomlib/jomprocess.cpp', 'jomlib/targetexecutor.cpp'],
     'index of the current command, one slot for results, flag to ignore the error of a first attempt, notifiers of the process',
     'typestate of a command (path-sensitive, exactly-once results), symbolic comparison of index and count, signedness lint',
     'All paths of the slots that take part are decided; events of the operating system are taken as arbitrary.')
prop('C16', 'Command lines are printed unless silent, before their output',
     'The command line is printed, with a leading tab and as written in the makefile after expansion, before the command is executed if '
     'and only if neither the command is marked @, nor its makefile is silent by /S; with /N it is always printed. It takes the same way '
     'as the output of the command.',
     ['inputs'], 'every command and option combination',
     STABLE + 'no test executes commands or looks at what is printed.',
     ['jomlib/commandexecutor.cpp'],
     'one condition before the execution of a command line',
     'path-sensitive decision table of the printing condition', 'All combinations of the options are decided on every path.')
prop('C17', 'Inline files exist while needed, and are removed unless KEEP',
     'Before the first command of a target is executed all inline files of its commands are written and closed, with their text, under '
     'a name that no file has unless the makefile names it, and this name replaces << in the command line. Files without KEEP are '
     'removed when the executor goes on to its next target, when the build ends and on Ctrl-C; files with KEEP are never removed.',
     ['inputs', 'histories', 'crash points'], 'every makefile with inline files and every way the build ends',
     STABLE + 'tests parse inline files, none writes or removes one.',
     ['jomlib/commandexecutor.cpp', 'jomlib/targetexecutor.cpp', 'app/main.cpp'],
     'list of temporary files per executor, cleaned up at the start of a target, in the destructor and by the console handler',
     'ownership analysis of the list of temporary files (every element written, remembered, removed)',
     'Decided for each element of the lists on every path; that the file system obeys is trusted.')
prop('C18', 'set and cd have their effect on the commands that follow',
     'A command line "set NAME=VALUE" changes the environment of all commands executed later, also those of other targets and jobs, and '
     'nothing else in it. "cd DIR" makes the following commands of the same target run in DIR, taken relative to their current working '
     'directory; it fails if DIR is no directory. The next target starts again in the directory of jom.',
     ['histories', 'inputs'], 'every sequence of set, cd and other commands over any number of jobs',
     STABLE + 'no test executes commands.',
     ['jomlib/commandexecutor.cpp', 'jomlib/targetexecutor.cpp', 'jomlib/jomprocess.cpp'],
     'environment copied, extended and announced to all executors; directory stored and applied to the next process',
     'path-sensitive dataflow of environment and directory; completeness of the signal connections',
     'Every path through the builtins and the mutual connection of all executors are decided.')
prop('C20', 'Threads share only data that a lock or their order in time protects',
     'Everything that the thread of the completion port (and the console handler) can touch is used by the other threads only while both '
     'hold the same lock, or while the channel is not registered, or before the thread starts. Each lock that is taken is given back on '
     'every way, never taken twice by a thread, and always in the same order. An observer is notified only as long as it is '
     'registered, which is looked up under the lock; signals from that thread are queued.',
     ['schedules'], 'every interleaving of the main thread, the threads of the completion port and the console handler',
     STABLE + 'no test has more than one thread, and races need a particular interleaving.',
     ['jomlib/iocompletionport.cpp', 'jomlib/jomprocess.cpp', 'jomlib/fastfileinfo.cpp', 'app/main.cpp'],
     'mutex of the console, mutex and registration of observers, end of the thread before its owner is destroyed',
     'lockset analysis (locks held, order, balance) of all fields reached from two threads; typestate of registration',
     'Decided for every pair of accesses reachable from different threads; that completion packets stop with the handle is trusted.')
prop('C19', 'Output of commands is complete, in order and not interleaved',
     'What commands print and what jom prints about them is neither lost nor changed: for each stream it appears in the order in which '
     'it was written, the parts of both streams in the order of their arrival. At most one target at a time prints directly; the output '
     'of each command of every other target is collected and printed in one piece when the command has ended or the target becomes the '
     'direct one.',
     ['schedules', 'inputs'], 'every interleaving of the processes, the thread of the completion port and the main thread',
     STABLE + 'no test executes commands; interleaving and loss need particular timing.',
     ['jomlib/jomprocess.cpp', 'jomlib/commandexecutor.cpp', 'jomlib/targetexecutor.cpp'],
     'one executor in direct mode handed on at its end, buffers with times, mutexes of mode and console',
     'typestate of the direct executor, exactly-once dataflow of output, lock discipline of mode and console, linear arithmetic of pieces',
     'Each step from the pipe to the console is decided on every path; output unread when a process ends is a known finding.')
prop('C21', 'Handles of child processes are neither leaked nor used after close',
     'Pipes and handles made for a process are closed on every way: all of them when it cannot be started, those of its own ends once it '
     'runs, the rest when it ended; none is closed twice or kept in a field after it was closed. The process inherits its ends of the '
     'pipes only, its standard output and error arrive at the channels that print to these. The completion port is closed after its '
     'thread ended.',
     ['histories', 'faults'], 'every sequence of starts, failures to start and ends of processes',
     STABLE + 'no test starts a process; leaks show after thousands of commands, missing ends of output as hangs.',
     ['jomlib/jomprocess.cpp', 'jomlib/iocompletionport.cpp', 'jomlib/filetime.cpp', 'jomlib/makefilefactory.cpp'],
     'fields for both ends of three pipes, process and thread, reset to an invalid value when closed',
     'typestate analysis of handles (open, stored, inheritable, closed) over all paths from start to end',
     'All paths of the functions that open or close handles are decided; the Windows functions are taken by their documentation.')
prop('C22', 'A child process gets exactly the environment that was set for it',
     'The environment block of a process holds each variable of the environment set for it as NAME=VALUE with a terminating zero, complete, '
     'once and without gap or overrun, then the end mark; PATH and SystemRoot of jom are added if it lacks them. The block always belongs '
     'to the environment that was set last. Names of variables are told apart without regard to case.',
     ['inputs'], 'environments of any size and contents',
     STABLE + 'no test builds an environment block; an overrun or wrong offset shows with particular contents only.',
     ['jomlib/jomprocess.cpp', 'jomlib/processenvironment.h'],
     'block computed as sizes first, then copied piece by piece with an offset',
     'abstract interpretation with linear arithmetic of sizes and offsets; structure of each entry',
     'Offsets and sizes are decided for every number and length of variables.')
prop('C23', 'Every error is reported and makes jom fail',
     'Whatever is wrong with the command line, the makefile, a macro, an inline file, the graph or the start of the build, jom prints the '
     'reason and exits with a status other than 0: an error that is caught is passed on with its message, and the result of every operation '
     'that can fail is looked at. An error found while a makefile is read is reported with file and line. No exception leaves main, a slot, '
     'a thread, a destructor or a function called by a library.',
     ['inputs', 'faults'], 'every input with an error in it, and every failure of an operation',
     STABLE + 'tests provoke some errors of the parser; none looks at the message, the status or what happens when an operation fails.',
     ['jomlib/parser.cpp', 'jomlib/makefilefactory.cpp', 'jomlib/options.cpp', 'jomlib/targetexecutor.cpp', 'app/main.cpp'],
     'exceptions with message, caught by the parser (adds the place), the factory, the slots and main',
     'exception flow analysis (escape sets, handlers), dataflow of messages, types of error and results that mean failure',
     'Decided for every throw, handler and checked operation; errors nobody detects (what is accepted as valid input) are other properties.')
prop('C24', 'Options have the effect their description states',
     'Each documented option, in either case and alone or joined with others, sets exactly what its description says; it is removed from the '
     'argument as a whole, takes its file name or number from the rest or the next argument, and anything else is an error. MAKEFLAGS '
     'holds the letter of each option in effect but /F and /X, and the number of the last /J; /I overrides /K; targets are recorded once. '
     'What is printed, predefined or batched depends on these options alone.',
     ['inputs'], 'every command line, in any order and combination of options, macro definitions and targets',
     STABLE + 'tests give a handful of options; a wrong letter, flag or interplay shows with particular combinations only.',
     ['jomlib/options.cpp', 'jomlib/options.h', 'app/main.cpp', 'jomlib/makefilefactory.cpp'],
     'loop over the letters of an argument with a switch, fields of Options, string of flags',
     'decision table extracted by path-sensitive dataflow from the option loop, compared with the documented table; guards of effects',
     'Every letter and name with every path of one iteration is decided; splitting of command files into arguments is not.')
prop('C25', 'Precedence of macro definitions',
     'A macro given on the command line is never redefined by the makefile; a definition in the makefile replaces one from the environment '
     'unless /E makes these read-only, and both precede predefined macros, which a name given explicitly on the command line precedes before '
     'its upper-case form. Values are kept unexpanded, a redefinition may use the old value, only valid names are accepted. Macros from the '
     'command line and the environment reach the environment of commands, also when they change; others do not.',
     ['histories', 'inputs'], 'every sequence of definitions from all sources, and every name and value',
     STABLE + 'tests define a few macros; precedence depends on the order and source of all definitions of a name.',
     ['jomlib/macrotable.cpp', 'jomlib/macrotable.h', 'jomlib/options.cpp', 'app/main.cpp', 'jomlib/parser.cpp'],
     'source and read-only flag of each macro, environment object of the table',
     'path-sensitive dataflow: guard and effect of each write to a macro, order of definitions by source',
     'Every path of the functions that define macros is decided.')
prop('C26', 'Expansion of macros',
     'Expanding a text replaces each `$(X)` and `$X` by the expanded value of the macro, `$$` by a dollar sign, and keeps file name macros '
     '(in dependents lines also `$$@`) marked for later; all other text is kept, once and in order; anything else behind a dollar sign is an '
     'error. A macro whose expansion needs itself, directly or through others, is an error and never endless recursion, while using one '
     'several times is none. `$(X:a=b)` replaces each a in the expanded value by b; a caret quotes a parenthesis.',
     ['inputs'], 'every text and every set of macro definitions, in any nesting',
     STABLE + 'tests expand a few texts; lost text, wrong ends and undetected cycles need particular combinations.',
     ['jomlib/macrotable.cpp', 'jomlib/macrotable.h'],
     'scanner with a position and pending text, set of macros that are being expanded passed through the recursion',
     'abstract interpretation of positions (inductive invariant of each scanner step), typestate of entered macros',
     'Each step of the scanner is decided for every position and text; the text functions of the library are trusted.')
prop('C27', 'Conditional directives select one text and skip the others',
     'Of the texts of a conditional (!IF, !IFDEF, !IFNDEF, !ELSE IF..., !ELSE, !ENDIF) exactly the first one whose condition is met is used; '
     'the others have no effect whatever they contain, with nested conditionals skipped as a whole. Conditions are evaluated on the expanded '
     'text of the directive. !ELSE and !ENDIF without !IF, a missing !ENDIF and unknown directives are errors; known directives that match '
     'are not. Directives are never passed on as lines of the makefile.',
     ['inputs'], 'every nesting and sequence of directives, conditions and text, also spread over included files',
     STABLE + 'tests evaluate a few conditionals; mistakes need a particular nesting, order or truth of conditions.',
     ['jomlib/preprocessor.cpp', 'jomlib/preprocessor.h'],
     'stack with one flag for each open conditional, loop that skips lines and counts the depth, line put back',
     'decision table of each directive extracted by path-sensitive dataflow, inductive invariant of the skipping loop, reachability of effects',
     'Every path for every directive and state is decided; the form of a directive line and the value of expressions are not.')
prop('C29', 'Expressions of conditionals have the value of their operators',
     'An expression is split into the longest operators, numbers, strings ("" is a quote), [commands] (their exit status) and the questions '
     'DEFINED(x) and EXIST(x) in any case, which are 1 or 0 and whose argument ends at its parenthesis. Each operator yields its value: unary '
     '- ~ ! bind first, then * / %, + -, << >>, == != < > <= >= (== and != also for strings), and && || & | last, from left to right; logical '
     'results are 1 or 0. Everything else, and division by 0, is an error; no expression, however long, stops the program.',
     ['inputs'], 'every text of an expression: all operators, nestings, lengths and values',
     STABLE + 'tests evaluate some dozen expressions; tables, actions and lookahead can be wrong for others.',
     ['jomlib/ppexprparser.cpp', 'jomlib/ppexprparser.h', 'jomlib/ppexpr_grammar.cpp', 'jomlib/ppexpr_grammar_p.h', 'jomlib/ppexpr-lex.inc', 'jomlib/preprocessor.cpp'],
     'tables of a generated LALR(1) parser with actions, tables of a generated scanner with actions, growing stacks',
     'automata read from the tables and compared with the grammar state by state; path-sensitive dataflow of each action, typestate of tokens',
     'All states, productions and tokens are decided. && and || bind alike, as in the grammar of jom. Overflow of numbers is not treated.')
prop('C30', 'File name macros are replaced by the files they stand for',
     'In each command line and each name and text of an inline file every file name macro is replaced, as a whole and with all other text '
     'kept: `$@` by the target, `$*` by the target without extension, `$**` by all dependents, `$?` by those not older than the target; in '
     'a command with ! by the one dependent it is executed for, once for each. Modifiers D, B, F, R and then the substitution are applied to '
     'each value; values are joined by a blank and quoted if they contain blanks. A macro behind a caret is kept. Among dependents `$@` and '
     '`$*` are replaced too, `$**` and `$?` are errors.',
     ['inputs'], 'every text with any number and neighbourhood of macros, every set of dependents and time stamps',
     STABLE + 'tests expand single macros in dependents; wrong ends, lost text and skipped neighbours need particular texts.',
     ['jomlib/makefile.cpp', 'jomlib/makefile.h'],
     'search for a mark character, replacement in place, list of values changed element by element',
     'abstract interpretation of positions with linear arithmetic (one step from mark to mark), decision table of values, dataflow of each list element',
     'Each step is decided for every text; the values of the path functions of the library are trusted.')
prop('C31', 'Lines of makefiles are read whole, whatever their length and line end',
     'Each line of a makefile is read completely and once, whatever its length, encoding and line end (also if the last one is missing), '
     'within the bounds of the line buffer. Lines that start with # are dropped, but not in inline files, whose lines are kept as they are. '
     'A backslash at the end joins the next line with a blank, a caret with a line break; `^\\` stands for a backslash and `\\\\` is kept, '
     'alike for all encodings. Included files are read to their end before the including one goes on; each line is counted once.',
     ['inputs'], 'every sequence of lines of any length with any line end and continuation, over any number of included files',
     STABLE + 'tests read short lines; the buffer, parts of lines and mixed line ends need particular lengths and combinations.',
     ['jomlib/makefilelinereader.cpp', 'jomlib/makefilelinereader.h', 'jomlib/preprocessor.cpp'],
     'buffer of the line reader that grows, two readers for encodings, stack of files, joining of continued lines',
     'abstract interpretation with linear inequalities (inductive loop invariants for buffer bounds), decision table of line ends, typestate of lines',
     'Every path and position is decided; reading of the file itself and decoding are functions of the library that are trusted.')
prop('C32', 'Inference rules: the right rule is applied to the right targets',
     'A line `{path}.from{path}.to:` (or `::`), also followed by blanks or a comment, defines a rule. A target without commands gets the '
     'commands of exactly one rule: among those whose extension (in any case) and directory are the target\'s, whose other extension is in '
     '.SUFFIXES and whose dependent exists, the one with the first suffix, and of equals the last one defined. Its dependent is added to the '
     'target once. Targets with commands never get a rule. Rules of batch mode are applied to all targets collected for them, in batches.',
     ['inputs', 'histories'], 'every set of rules, suffixes, targets, directories and files, also files made during the build',
     STABLE + 'tests cannot run this part here; wrong choices need several rules, cases of letters or late files.',
     ['jomlib/parser.cpp', 'jomlib/parser.h', 'jomlib/makefile.cpp', 'jomlib/makefile.h', 'jomlib/dependencygraph.cpp'],
     'rules indexed by extension, priorities by suffix, candidates of each target, filter by existing files, lists of batches',
     'path-sensitive dataflow with provenance of each field and name, decision table of selection, each-element analysis of loops, table of the constant pattern',
     'All paths of the selecting functions are decided. That targets of a batch wait for it is C01. Chains of rules are not searched, as in nmake.')
prop('C28', 'Every piece of makefile text is expanded exactly once',
     'The macros in a piece of makefile text are expanded once, when the text is used: targets, dependents, command lines and inline files of '
     'description blocks when they are read, those of inference rules (lines, names and contents of inline files) when the rule is applied, '
     'where `$<` then stands for the inferred dependents, the arguments of directives with the line; skipped text never. Modifiers are '
     'evaluated in expanded lines. File name macros are expanded anew for every execution of a target; copies of commands are independent.',
     ['inputs', 'histories'], 'every text with any nesting of macros and `$$`, every mixture of rules, blocks, inline files and repeated executions of a target',
     STABLE + 'tests expand texts once from the macro table; text lost by a second or a missing expansion needs `$$`, rules with inline files, or a target requested twice.',
     ['jomlib/parser.cpp', 'jomlib/makefile.cpp', 'jomlib/makefile.h', 'jomlib/preprocessor.cpp', 'jomlib/commandexecutor.cpp'],
     'expansion spread over parser, preprocessor and application of rules; commands kept and put back around each execution; deep copies',
     'taint-like dataflow that counts the expansions of every value on all paths, call graph reachability of expansion, typestate of kept commands, member coverage of copies',
     'All paths of the functions that hand on text are decided. What one expansion yields is C26 and C30.')
prop('C33', 'Description blocks say the same about each of their targets',
     'In `targets : dependents ; command`, the separator is the first colon outside of parentheses that is not part of a drive letter; two '
     'colons are one separator. A comment begins at the first # that is neither quoted nor escaped, a command at the first unquoted '
     'semicolon, whichever comes first; carets of escaped # vanish, except in the command. Each target is created once, gets the '
     'dependents and the commands (that of the line first, then the lines that follow, each once) unless it has some and the '
     'separator is a single colon; : and :: for the same target are an error. .NOTPARALLEL is no target.',
     ['inputs', 'histories'], 'every line and sequence of description blocks for the same targets, with any quotes, escapes, drives and macros',
     STABLE + 'tests parse blocks with one feature at a time; targets described twice, drive letters behind quotes or escapes next to commands need combinations.',
     ['jomlib/parser.cpp', 'jomlib/parser.h'],
     'positions of separators found by searches over the line, parts cut from it, loop over the targets of a block',
     'dataflow that labels which part of the line each value is made of, decision table for each target and character, typestate of the lines read',
     'All paths are decided. Splitting of names and wildcards are trusted; ; and # in macro invocations count as separators (DESIGN).')
prop('C34', 'Included makefiles are found where they are looked for',
     'The name of an included file stands between quotes, angle brackets or neither. The file that is included is the first that exists '
     'of: the name as it stands, the name in the directory of each open makefile from the innermost to the outermost, and, for angle '
     'brackets only, in each directory of the macro INCLUDE (with the macros in it expanded) in order. If there is none, if it cannot be '
     'read, or if it is open already, by whatever name, it is an error. Its lines are read next, its own directory is the innermost one.',
     ['inputs', 'histories'], 'every name, set of existing files and depth of including makefiles in any directories',
     STABLE + 'tests include files of one directory, one level deep; the order of places shows only if the name exists in several.',
     ['jomlib/preprocessor.cpp', 'jomlib/preprocessor.h', 'jomlib/helperfunctions.h'],
     'stack of open makefiles with their directories, early returns of a search, absolute names to detect cycles',
     'dataflow that labels what each path is made of, order and completeness of the searching loops, typestate of the opened file',
     'All paths are decided. Links to the same file by different absolute names are different files here.')
prop('C35', 'Lines that define macros are taken apart at the right places',
     'A line defines a macro exactly if it begins like a name and an equals sign stands outside of parentheses with no colon outside of '
     'parentheses before it. The name is all before the first such equals sign, the value all behind it, both without blanks around. A comment '
     'in the value, or in the argument of a directive, begins at the first # that no caret precedes; the carets of the others vanish.',
     ['inputs'], 'every line, with any nesting of parentheses, colons, equals signs, carets and #',
     STABLE + 'tests define macros by simple lines; colons and equals signs in macro invocations, or several escaped # in one value, need combinations.',
     ['jomlib/preprocessor.cpp', 'jomlib/preprocessor.h'],
     'searching loop with a level of parentheses, positions found and parts cut, text edited while it is searched',
     'dataflow that labels which part of the line each value is made of, decision table for each character and level, typestate of the search for comments',
     'All paths are decided. Which characters a name begins with is a constant pattern and trusted.')
