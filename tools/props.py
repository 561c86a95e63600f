RB = 'internal/runbook/'
SA = 'static analysis: '
PATH = SA + 'path-sensitive abstract interpretation of SSA with typestate rules'
ABS = '''Every path of the analysed functions is interpreted over symbolic values with loops widened;
a rule that cannot be shown on a path is a violation. '''

# ------------------------------------------------------------------ runbook
prop('R01', 'A run that reports success ran every task successfully',
 '''If running a runbook reports success, every task declared in it was started exactly through its own target and ended without an error.
 A task that fails, a target that fails to start, or an invalid dependency graph always makes the run report failure, whichever task or target it is and whenever it happens.''',
 ['schedules', 'fault_sequences', 'inputs'], 'all runbooks, all interleavings of the runner\'s goroutines, all combinations of failing tasks and targets',
 'Tests run two small runbooks, one of which fails in its only failing task; they cannot enumerate interleavings or failure positions.',
 [RB+'runner.go', RB+'runbook.go', RB+'scheduler/scheduler.go'],
 [('runner', RB+'runner.go run'), ('result channel', RB+'runner.go startTargetGoroutine')], PATH, ABS + 'Starts at the exported run function and follows every goroutine it starts.')
prop('R02', 'A task starts only after all tasks it comes after ended successfully',
 '''During a run, no task is started before every task listed in its "after" list has ended without an error.
 A failed task is never treated as completed.''',
 ['schedules', 'inputs', 'fault_sequences'], 'all dependency graphs, schedules and failures',
 'Tests check the outcome of fixed graphs with a single-threaded demo target.',
 [RB+'runner.go', RB+'scheduler/scheduler.go', 'internal/dag/dependency.go'],
 [('completion reporting', RB+'runner.go run'), ('ready computation', 'internal/dag/dependency.go Ready')], PATH, ABS + 'Covers runner, scheduler and dependency graph.')
prop('R03', 'Every run ends: no deadlock, no channel panic',
 '''A run of a runbook always ends once the tasks it started have ended, also when there are no tasks, when tasks fail, or when targets fail to start.
 No part of the runner waits forever for another part, and no message is sent on a closed channel and no channel is closed twice.''',
 ['schedules', 'fault_sequences', 'inputs'], 'all interleavings, runbook sizes, failure positions',
 'A test that passes says nothing about the interleavings it did not take; the deadlocks need many tasks failing at particular moments.',
 [RB+'runner.go'], [('channels', RB+'runner.go newRunner'), ('router', RB+'runner.go startTargets')], PATH,
 ABS + 'Channel protocol: drained receivers or a capacity that covers all tasks in flight, unique closers on every path, wait group pairing, acyclic blocking sends.')
prop('R04', 'Targets are started before, and stopped exactly once after, their tasks',
 '''During a run a target handles tasks only after it was started successfully, every target that was started successfully is stopped exactly once after its last task, and targets that were not started are never stopped.
 The run does not return before all started targets were stopped.''',
 ['schedules', 'fault_sequences'], 'all schedules, all failures of starting targets and of tasks',
 'No test makes a target fail to start or checks that targets are stopped.',
 [RB+'runner.go'], [('target goroutine', RB+'runner.go startTargetGoroutine')], PATH, ABS + 'Typestate of the target interface.')
prop('R05', 'A target never runs more tasks at once than its concurrency limit',
 '''At no time during a run does a target execute more tasks concurrently than its declared concurrency limit, and runbooks that declare a limit below one are rejected before anything is started.''',
 ['schedules', 'inputs', 'configurations'], 'all runbooks and schedules', 'Tests only have targets with one task running at a time.',
 [RB+'runner.go', RB+'scheduler/scheduler.go', RB+'sh/sh.go', RB+'pg/pg.go', RB+'demo/demo.go'],
 [('one goroutine per target', RB+'runner.go startTargetGoroutine'), ('limit validation', RB+'sh/sh.go Analyze')], PATH, ABS)
prop('R06', 'A runbook is loaded only if every target and task in it was validated',
 '''Loading a runbook succeeds only if every declared target has a registered class and passed its own validation, and every declared task names a declared target, has a task class that target knows, and passed its own validation, each after its configuration was decoded.
 A loaded runbook contains all declared targets and tasks under their own IDs, with the declared dependencies, target and message.''',
 ['inputs'], 'all runbook files', 'Tests load a handful of valid and invalid files.',
 [RB+'parser/parser.go'], [('loadTargets', RB+'parser/parser.go loadTargets'), ('loadTasks', RB+'parser/parser.go loadTasks')], PATH, ABS)
prop('R07', 'Runbooks with unknown fields or null entries are rejected, not misread',
 '''Any field in a runbook that is not defined for the place where it occurs (top level, target, task, target configuration, task configuration) makes loading fail, and null targets or tasks make loading fail instead of crashing.
 Errors while decoding any part are reported.''',
 ['inputs'], 'all runbook files', 'Misspelt fields at every level and null entries are not in the test data.',
 [RB+'parser/parser.go'], [('decoders', RB+'parser/parser.go Parse')], PATH, ABS)
prop('R08', 'Listing, drawing, evaluating or loading a runbook never executes anything',
 '''The commands that list, draw or evaluate a runbook never start a process, connect to a database or run a task: only the run command can do so, after the complete runbook has been loaded.''',
 ['inputs', 'programs'], 'all runbooks and command lines', 'A test cannot show the absence of an effect for all inputs.',
 [RB+'runbook.go', 'internal/commands/runbook_list.go', 'internal/commands/runbook_dot.go', 'internal/commands/runbook_eval.go'],
 [('entry points', RB+'runbook.go')], SA + 'effect analysis over the call graph', 'Over-approximating call graph (static calls, all implementations of interface calls, all address-taken functions of matching type inside the module).')
prop('R09', 'Shell environments follow the allow, deny and set rules for every variable',
 '''The environment a shell task runs with is the process environment filtered by the target's rules and then by the task's rules.
 Each filter keeps a variable if and only if it is in a non-empty allow list, or there is no allow list and it is not in the deny list; variables to set always have the given value and no other, whether or not they existed before.
 An environment from which everything was filtered stays empty: it never becomes the whole process environment.''',
 ['inputs', 'configurations'], 'all environments and filters', 'Tests cover a few combinations of the three rule kinds.',
 [RB+'sh/env.go', RB+'sh/sh.go', RB+'sh/exec.go'], [('filter', RB+'sh/env.go Apply')], PATH, ABS)
prop('R10', 'A shell task runs exactly the validated command, in the runbook\'s directory',
 '''A shell task executes its first argument with exactly the remaining arguments, without a shell, in the directory of the runbook, with no standard input and with output going to the configured streams.
 A command name that contains a slash but does not start with "/", "./" or "../", and an empty argument list, are rejected when the runbook is loaded.''',
 ['inputs'], 'all commands', 'Tests cover a few names and one command.',
 [RB+'sh/exec.go', RB+'runbook.go'], [('exec', RB+'sh/exec.go exec'), ('validateArg0', RB+'sh/exec.go')], PATH, ABS)
prop('R11', 'Every task class can be executed, and its failure is the task\'s failure',
 '''Every kind of task a runbook may declare can be executed by the target that created it, as the class it names, and an unknown task class is an error.
 If the underlying command, SQL statement or output of a task fails, the task reports an error.''',
 ['inputs', 'fault_sequences'], 'all task classes and failures', 'No test runs every class, failing output or failing SQL.',
 [RB+'sh/sh.go', RB+'pg/pg.go', RB+'demo/demo.go', RB+'demo/tasks.go'], [('Handle', RB+'sh/sh.go Handle')],
 SA + 'type-level exhaustiveness and error-flow analysis', ABS)
prop('R12', 'A runbook with an invalid dependency graph never starts anything',
 '''If the dependencies of a runbook are circular or refer to tasks that do not exist, running it reports an error and no target is started and no task is run.''',
 ['inputs'], 'all dependency graphs', 'Tests never run an invalid runbook.',
 [RB+'runner.go', RB+'scheduler/scheduler.go'], [('validation before start', RB+'runner.go run')], PATH, ABS)
prop('R13', 'Every task of a run is started at most once',
 '''During a run no task is started twice, however many tasks depend on it or complete at the same time.''',
 ['inputs', 'schedules'], 'all dependency graphs and completion orders', 'Tests use two small graphs.',
 [RB+'scheduler/scheduler.go', 'internal/dag/dependency.go', RB+'runner.go'], [('hand-out', RB+'scheduler/scheduler.go buildReady')], PATH, ABS)
prop('R14', 'Whenever tasks complete, every task that became ready is eventually handed out',
 '''Each time a task completes, all tasks whose dependencies have now all completed become ready, and each of them is handed out as soon as its target has a free slot.
 No ready task is withheld while its target is idle.''',
 ['inputs', 'histories'], 'all dependency graphs, completion orders and capacities', 'Tests check one graph with one completion order.',
 ['internal/dag/dependency.go', RB+'scheduler/scheduler.go'], [('Ready', 'internal/dag/dependency.go'), ('buildReady', RB+'scheduler/scheduler.go')], PATH, ABS)
prop('R15', 'The settings of a target take effect',
 '''The connection settings a runbook declares for a PostgreSQL target - host, port, SSL mode, user, password, database and retries - each reach the connection that is opened when the target is started; a failed connection fails the start; tasks run their SQL on that connection, and it is closed when the target is stopped.
 The limit of a target is the one it declares, or one; every limit of one or more is accepted, and a task is accepted if and only if it has SQL.
 Everything the program gives to the targets it creates - log, directory and streams - is used by them.''',
 ['configurations', 'inputs'], 'all runbooks', 'Tests set few of the settings and do not look at the connection.',
 [RB+'pg/pg.go', RB+'sh/sh.go', RB+'demo/demo.go'], [('Start', RB+'pg/pg.go Start'), ('NewTarget', RB+'sh/sh.go NewTarget')], PATH, ABS)

prop('G01', 'Dangling and circular dependencies are always reported, and only those',
 '''Building a dependency graph fails if and only if a node depends on a node that does not exist or the dependencies are circular.
 Otherwise the topological order contains every node exactly once, after all nodes it depends on.''',
 ['inputs'], 'all graphs', 'Tests sort four fixed graphs.',
 ['internal/dag/tsort.go', 'internal/dag/directed.go', 'internal/dag/dependency.go'], [('visit', 'internal/dag/tsort.go')], PATH, ABS)

# ------------------------------------------------------------------ PostgreSQL client
prop('P01', 'Connections use the requested TLS mode, verified by default with a password',
 '''When connecting, each accepted SSL mode has its PostgreSQL meaning: disable never uses TLS, allow tries without and then with TLS, prefer tries with and then without, require always uses TLS, and verify-full always uses TLS and verifies the certificate against the host name.
 If a password is used and no mode was requested the connection is verified as with verify-full, and an unknown mode is an error before any connection is attempted.''',
 ['configurations', 'inputs'], 'all option and environment combinations', 'No test connects with TLS; integration tests need a server.',
 ['internal/pg/pg.go'], [('applySSLMode', 'internal/pg/pg.go'), ('New', 'internal/pg/pg.go')], PATH, ABS)
prop('P02', 'Explicit connection options win over the environment, and retries are bounded',
 '''Host, port, user, password and database given explicitly are used in preference to those from the environment, each for itself.
 Connecting is attempted at most once plus the configured number of retries, stops at the first success, and reports the last error when all attempts fail.''',
 ['configurations', 'fault_sequences'], 'all options and failure sequences', 'No test covers retries.',
 ['internal/pg/pg.go'], [('New', 'internal/pg/pg.go')], PATH, ABS)
prop('P03', 'Inspecting or pinging a database never modifies it',
 '''Every SQL statement the inspect and ping commands can send only reads: it is a constant SELECT or SHOW statement, apart from quoted identifiers.
 Statements that may modify a database are sent only by running a runbook task.''',
 ['inputs', 'programs'], 'all databases and command lines', 'A test cannot show what is never sent.',
 ['internal/pg'], [('queries', 'internal/pg/*.go')], SA + 'effect analysis over the call graph and classification of SQL constants', 'Every argument of a query call is traced to its constants.')
prop('P04', 'No value from outside becomes part of SQL text without quoting',
 '''Names and values that come from a database, a file or the command line are passed to the server as query parameters or as quoted identifiers, never concatenated into the text of a query.
 Only the SQL of a runbook task is sent as it is.''',
 ['inputs'], 'all names', 'Tests use harmless names.',
 ['internal/pg'], [('Identifier', 'internal/pg/util.go')], SA + 'taint analysis of query text', 'Backward slice of every query text to constants and quoting functions.')
prop('P05', 'An inspection is complete or fails',
 '''If any query, row, or definition cannot be read or understood while a database is inspected, including when the connection breaks in the middle of a result, the inspection fails.
 It never reports success with part of the objects missing.''',
 ['fault_sequences', 'inputs'], 'all failures at every query, row and parse step', 'Tests that reach this code need a healthy server.',
 ['internal/pg', 'internal/commands/inspect.go'], [('row loops', 'internal/pg/*.go'), ('InspectDatabase', 'internal/pg/inspect.go')], SA + 'path-sensitive error-flow analysis', ABS)
prop('P06', 'Query results are read into the fields they are about',
 '''Every column a catalog query selects is scanned into exactly one variable, in order, and ends up in the description field of the same meaning; every query parameter is given the value it is compared with.
 Lists are reported in the order their query defines.''',
 ['inputs', 'programs'], 'all catalog queries', 'Needs a server; no test compares every field.',
 ['internal/pg'], [('Scan calls', 'internal/pg/*.go')], SA + 'SQL projection / scan / field agreement', 'The select list, the scan targets and the fields they flow into are matched position by position.')
prop('P07', 'No query is sent while a previous result is still open, and results are closed',
 '''On every path, the rows of a query are closed before the function that opened them returns, and no further query is sent on the connection while rows are open.''',
 ['fault_sequences', 'inputs'], 'all paths including errors', 'Error paths are not taken in tests.',
 ['internal/pg'], [('row loops', 'internal/pg/*.go')], PATH, ABS)
prop('P08', 'Inspection covers every kind of object of every table',
 '''An inspection reports parameters, schemas, functions, sequences and tables, and for every table its columns, check constraints, foreign keys, storage parameters, indexes and triggers, each obtained for that table's own schema and name.''',
 ['inputs'], 'all databases', 'Needs a server.',
 ['internal/pg/inspect.go'], [('inspectTable', 'internal/pg/inspect.go')], PATH, ABS)
prop('P09', 'Sort options order exactly what they name, and nothing else',
 '''Columns are sorted by name and check constraints by expression if and only if the corresponding option is given, and indexes are sorted if and only if theirs is; without options the server's order is kept.
 Options never change which objects are reported.''',
 ['configurations', 'inputs'], 'all option combinations', 'Tests use one combination and need a server.',
 ['internal/pg/inspect.go', 'internal/commands/inspect.go'], [('sort.Slice', 'internal/pg/inspect.go')], PATH, ABS)
prop('P10', 'Every storage parameter is stored in its own field with its own type',
 '''Each table storage parameter known to the tool is parsed with the type of the field it is reported as and stored in exactly the field that is written under the same name; a value that cannot be parsed is an error.''',
 ['inputs'], 'all storage parameters and values', 'Tests cover a few parameters.',
 ['internal/ddl/table_storage_parameters.go', 'internal/pg/table_storage_parameters.go'], [('Set', 'internal/ddl/table_storage_parameters.go')], PATH, ABS)
prop('S01', 'Passwords never reach logs, output or the command line',
 '''A database password given in a runbook or in the environment is used only to connect: it is never logged, printed, written to a file or included in an error message by any command - other than eval, whose purpose is to show the runbook it is given - and it cannot be given on the command line.''',
 ['inputs', 'programs'], 'all passwords and paths', 'A test cannot show the absence of a flow.',
 ['internal/pg/pg.go', RB+'pg/pg.go', 'internal/cli'], [('Password', 'internal/pg/pg.go Options')], SA + 'information-flow (taint) analysis', 'Field-sensitive taint of everything that contains a password to every call outside the connection setup.')

# ------------------------------------------------------------------ definitions
prop('D01', 'Definition parsers accept exactly their grammar',
 '''The parsers of check constraints, foreign keys, indexes and triggers accept the definitions described by their grammars and reject everything else: each recogniser is equivalent to the grammar it was generated from.''',
 ['inputs'], 'all strings', 'Tests parse a few dozen definitions.',
 ['internal/ddl'], [('generated automata', 'internal/ddl/*_parser.go'), ('grammars', 'internal/ddl/*_parser.rl')], SA + 'automaton extraction from generated code and language equivalence',
 '''The recogniser is read out of the SSA of each parser (byte set x state -> successor, with loops of the generated code interpreted abstractly), the grammar file is compiled to an automaton with an own Ragel front end, and the product of both is explored completely: acceptance agrees for every string.''')
prop('D02', 'Definition parsers never crash and never loop, whatever the input',
 '''For every input string, parsing a check constraint, foreign key, index or trigger definition ends with a result or an error, and never crashes.
 A result is returned if and only if the whole input was accepted.''',
 ['inputs'], 'all strings', 'Tests parse a few dozen definitions; slice bounds depend on where each token started.',
 ['internal/ddl'], [('generated automata', 'internal/ddl/*_parser.go')], SA + 'automaton extraction and dataflow over its states',
 'Explores all product states of recogniser, grammar and token-start information; every slice and index must be in bounds in each of them, and the position strictly advances.')
prop('D03', 'A parse error points at the first character that cannot be accepted',
'''When a definition cannot be parsed, the error shows the line that contains the first character that could not be accepted, that line only and to its end, with a marker below that character, for every input (of any number of lines, also with multi-byte characters) and every position. If the definition is incomplete the error says that it is after the end.''',
['inputs'], 'all inputs', 'Tests check fixed examples of the marker.',
['internal/ddl/parser_utils.go'], [('parseError', 'internal/ddl/parser_utils.go'), ('failures', 'internal/ddl/*_parser.go')], SA + 'automaton extraction from SSA (where every failure points), and abstract interpretation of the error text over linear positions in the input, with loop invariants found by elimination',
'Every configuration of the four parsers and every byte; and every path of the error method, for every text and place. A text that is put together in a way the analysis does not follow (by splitting into a list of lines) is left undecided, not reported.')
prop('D04', 'Each clause of a definition is recorded in the field it belongs to',
 '''Parsing a definition records every clause in its own field: the columns in their order, the referenced table and columns, match type, actions, names, table, access method, conditions, operator class of its key, timing, events, level, function and the expression text are exactly what the definition says, up to white space and letter case of keywords.''',
 ['inputs'], 'all definitions of the grammars', 'Tests parse a few dozen definitions, mostly with one optional clause each.',
 ['internal/ddl'], [('actions', 'internal/ddl/*_parser.rl'), ('setters', 'internal/ddl/*_parser.go')], SA + 'automaton extraction, comparison of the effects of every transition with the actions of the grammar',
 'For every transition of the product the sequence of field updates and the text they use are compared with the grammar\'s actions.')
prop('D05', 'Everything that is inspected is written, and can be read back',
 '''Every field of every database object description is written to and read from configuration files under its own name (in lower case; a list of objects is one block of that name each; names are unique within the object; the labels of a block are schema, table and name, in that order), and lists and optional parts are written as blocks that the reader accepts again.''',
 ['inputs'], 'all descriptions', 'Golden files do not contain every field.',
 ['internal/ddl'], [('hcl tags', 'internal/ddl/*.go')], SA + 'schema analysis of struct tags', 'Every field of every struct reachable from the database description is examined.')
prop('D06', 'Generated SQL quotes names so that they stay one identifier',
 '''In SQL generated for tables, indexes and triggers, every object name is written as a double-quoted identifier in which embedded quotes are doubled, whatever characters the name contains.''',
 ['inputs'], 'all names', 'Tests use simple names.',
 ['internal/ddl/util.go', 'internal/ddl/table.go', 'internal/ddl/index.go', 'internal/ddl/trigger.go'], [('quoteName', 'internal/ddl/util.go')], SA + 'symbolic evaluation of the generated text',
 'Every path of ToSQL is interpreted to a sequence of constant and symbolic pieces; a piece that stems from a name must be surrounded by quotes and have passed a doubling replacement. Unquoted function text of triggers is a known finding.')
prop('D07', 'Generated SQL is complete',
 '''The SQL generated for a table lists every column exactly once, in order, with its type, with NOT NULL and DEFAULT exactly if they are set, and every check constraint; for a primary key it lists every key column in order, with the constraint\'s name if it has one; for a trigger on updates it gives name, timing, table, row level and function; for a function its signature, result, language and body.''',
 ['inputs'], 'all descriptions of objects', 'Golden tests use tables with few columns.',
 ['internal/ddl/table.go', 'internal/ddl/index.go', 'internal/ddl/trigger.go', 'internal/ddl/function.go'], [('ToSQL', 'internal/ddl/*.go')], PATH, ABS)

# ------------------------------------------------------------------ command line
prop('C01', 'Every command line option reaches the setting it names',
 '''Every option of every command sets exactly the setting it is named after, and that setting reaches the code it controls unchanged: connection options the connection, output options the output file, sort options the inspection, splines and color the renderer.''',
 ['configurations', 'programs'], 'all options of all commands', 'Tests parse a few command lines and never check the effect of most options.',
 ['internal/cli', 'internal/commands'], [('registration', 'internal/cli/*.go'), ('option passing', 'internal/commands/*.go')], SA + 'dataflow from flag registration to use', '')
prop('C02', 'The exit status is zero if and only if the command succeeded',
 '''The program exits with a non-zero status whenever parsing the command line or the command itself fails, and with zero only if the command completed without error.
 A command reports success only if every step it depends on succeeded, including writing its output.''',
 ['fault_sequences', 'inputs'], 'all failures', 'The main function is not tested, and commands are not tested with failing writers.',
 ['main.go', 'internal/cli/cli.go', 'internal/commands'], [('main', 'main.go')], SA + 'path-sensitive error-flow analysis', ABS)
prop('C03', 'Commands write only to the streams and files they were given',
 '''A command's output goes to the output stream or to the file chosen by the user; nothing in the code of the commands writes directly to the process's standard output or to any other file.''',
 ['inputs', 'programs'], 'all commands', 'Tests compare the output of some commands with buffers, but never what else was written.',
 ['internal/commands', 'internal/runbook'], [('writeOutput', 'internal/commands/base.go')], SA + 'effect analysis over the call graph', '')
prop('C04', 'An output file is replaced only by complete, successfully produced content',
 '''If producing the output of inspect, dot or eval fails, an existing output file is left as it was.
 The file is opened for writing only after the whole content is known.''',
 ['fault_sequences'], 'all failures before and during output', 'Tests never write to files.',
 ['internal/commands'], [('writeOutput', 'internal/commands/base.go')], PATH, ABS)
prop('C05', 'Verbosity flags select the documented log level',
 '''Each -v raises and each -q lowers the verbosity by one from warnings: errors only, warnings, information, debug, with everything beyond the ends clamped.
 Messages below the selected level are never shown on the standard log.''',
 ['inputs', 'configurations'], 'all flag counts', 'Tests cover the levels of the logger, not the flags.',
 ['internal/cli/cli.go', 'internal/logger/logger.go'], [('level mapping', 'internal/logger/logger.go')], PATH, ABS)
prop('C06', 'The debug log receives every message, whatever the verbosity',
 '''If a debug log file is given, every message of every level is written to it independent of the verbosity of the standard log, after what it held before; if none is given, nothing crashes and nothing else changes.''',
 ['configurations'], 'all flag combinations', 'The command line is never tested together with a debug log.',
 ['internal/cli/cli.go', 'internal/logger/logger.go'], [('tee', 'internal/logger/logger.go')], PATH, ABS)

prop('C07', 'Listings, drawings and evaluations show everything, and nothing else',
 '''The list command prints every task of the runbook exactly once, in the order of the task IDs, together with the ID of the task's own target.
 The dot command draws every target as a cluster, every task as a node in the cluster of its own target, and every dependency as an edge from the task that comes first to the task that comes after it, with escaped names.
 The eval command prints exactly the document that was loaded, ping prints the version of the server, and version prints the version of the program.''',
 ['inputs'], 'all runbooks', 'Tests list one small runbook and only check that a drawing is not empty.',
 ['internal/runbook/runbook.go', 'internal/commands'], [('List', RB+'runbook.go List'), ('Dot', RB+'runbook.go Dot'), ('printing', 'internal/commands/runbook_list.go')], PATH, ABS)

# ------------------------------------------------------------------ tasksets
prop('T01', 'A task set target reports every task exactly once and then closes its results',
 '''Every task queued to a task set target is run exactly once and its result is reported exactly once; once the queue is closed and all results were reported the result channel is closed, exactly once, and never before.''',
 ['schedules'], 'all batches and interleavings', 'Tests run one batch.',
 ['internal/taskset/base/base.go'], [('RunTasks', 'internal/taskset/base/base.go')], PATH, ABS)
prop('T02', 'Concurrent demo tasks never race on the target\'s state',
 '''Every access to the shared text of a demo task set target happens while its lock is held, and the lock is released on every path.''',
 ['schedules'], 'all interleavings', 'The race detector sees only the executed schedules.',
 ['internal/taskset/demo'], [('mutex', 'internal/taskset/demo/*.go')], SA + 'lockset analysis', ABS)
prop('T03', 'Every task set class that can be declared can be executed',
 '''Every kind of task a task set target creates can be run by that target, anything else is reported as an error, and the error of a task is the result that is reported for it.''',
 ['inputs'], 'all task types', 'Tests do not run every type.',
 ['internal/taskset'], [('NewTask', 'internal/taskset/*/*.go')], SA + 'type-level exhaustiveness and error-flow analysis', ABS)
prop('T04', 'A task set is loaded completely or rejected',
 '''Parsing a task set fails if the file cannot be parsed, a target or task type is unknown, a task names a target that does not exist, a target or task is declared twice, or any configuration cannot be decoded, and for no other reason.
 Otherwise all declared targets and tasks are present under their own names.''',
 ['inputs'], 'all files', 'Tests load a few files.',
 ['internal/taskset/parser/parser.go'], [('Parse', 'internal/taskset/parser/parser.go')], SA + 'path-sensitive error-flow analysis', ABS)
prop('T05', 'A task set target never runs more tasks at once than max_concurrency',
 '''At no time does a task set target run more tasks concurrently than its max_concurrency, however many tasks are queued to it; a limit below one counts as one, and targets without that setting run one task at a time.''',
 ['schedules', 'inputs', 'configurations'], 'all batches, limits and interleavings', 'Tests queue batches of one task.',
 ['internal/taskset/base/base.go', 'internal/taskset/demo/demo.go', 'internal/taskset/pg/pg.go', 'internal/taskset/sh/sh.go'], [('RunTasks', 'internal/taskset/base/base.go'), ('Start', 'internal/taskset/demo/demo.go')],
 SA + 'path-sensitive abstract interpretation with a counting abstraction', ABS + 'The number of tasks in flight is related to a counter of the loop, whichever it is.')
prop('T06', 'The dependencies a task set declares are the ones its tasks report',
 '''For every task of a task set, Dependencies reports every task listed as after - marked as a task - and everything listed as requires, in order and nothing else, and Provides reports what is listed as provides.''',
 ['inputs'], 'all task sets', 'No test looks at the dependencies of a task that was loaded.',
 ['internal/taskset/base/base.go', 'internal/taskset/parser/parser.go'], [('Dependencies', 'internal/taskset/base/base.go'), ('loadTasks', 'internal/taskset/parser/parser.go')], SA + 'path-sensitive dataflow', ABS)
prop('T07', 'The settings of task set targets and tasks can be declared and take effect',
 '''Every setting of a task set target or task can be declared under its name in lower case with underscores, and the log and output a factory was given are those of the targets it creates; unless declared otherwise a target runs one task at a time.''',
 ['inputs', 'configurations'], 'all settings', 'Tests declare some settings of one kind of target.',
 ['internal/taskset'], [('hcl tags', 'internal/taskset/*/*.go'), ('NewTarget', 'internal/taskset/*/*.go')], SA + 'schema analysis of struct tags and dataflow', 'Every exported field of every implementation of Target and Task is examined.')
