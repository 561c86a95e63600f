MODEL = 'values the engine has no model for are arbitrary; paths are all paths of the abstract program, an over-approximation'
GO = MODEL + '. Weak memory is not modelled: communication is by channels, and shared variables are reported'
LIB = 'the libraries called do what they document; ' + MODEL
NOTES = {
'R01': ('the protocol: handed out -> sent -> routed to the target\'s channel -> Handle -> its result reported -> success only if nil.', GO),
'R02': ('the definition: a task is ready when its set of open dependencies is empty; only successful completions are removed from sets.', GO),
'R03': ('the sufficient condition for absence of deadlock that the rules spell out (drain or capacity, unique closers, order of blocking sends).', 'Handle, Start and Stop of a target are assumed to return. The rules are sufficient, not necessary: a different protocol would need different rules and is reported.'),
'R04': ('typestate of a target: created -> started -> (handling) -> stopped once.', GO),
'R05': ('load <= limit as an invariant: what is handed out is at most limit - load on every path.', GO + '. Processes started by tasks are outside'),
'R06': ('the entry itself: each key and value of the decoded maps.', LIB),
'R07': ('the strictness of encoding/json and yaml decoders (KnownFields/DisallowUnknownFields).', LIB),
'R08': ('a list of effects (os/exec, net, pgx, targets) and of packages without.', 'call graph over-approximates; reflection in libraries is not followed (callbacks registered with them are)'),
'R09': ('the truth table of the filter over membership in the three rules.', 'entries of the process environment have the form NAME=VALUE'),
'R10': ('the declared arguments and the documented meaning of the lookup rules.', LIB),
'R11': ('one concrete type per class; any other must be refused.', LIB),
'R12': ('the validity of a graph: no edge to a missing task, no cycle.', GO),
'R13': ('each task leaves the list or queue it was handed out from.', MODEL),
'R14': ('ghost frontier: every remaining task is handed out or known to wait.', MODEL),
'R15': ('agreement of names between settings, target fields and connection options.', LIB),
'G01': ('correctness proof of depth first search; the code has to establish its invariants.', 'the sort is recognised as a recursive depth first search with a map of marks; another algorithm (Kahn, say) is reported as not understood'),
'P01': ('the table of libpq modes: for each mode which TLS settings are allowed.', 'what pgx and crypto/tls do with the configuration'),
'P02': ('precedence explicit > environment > default; attempts = 1 + retries.', LIB),
'P03': ('a classification of SQL by its tokens: one statement, starting with SELECT, SHOW, TABLE, VALUES or WITH, without functions that change anything.', 'functions of the catalog that are called are taken to be free of effects if they are in pg_catalog'),
'P04': ('constants, and identifiers quoted by pgx.Identifier.', 'call graph over-approximates'),
'P05': ('Next/Scan/Err/Close protocol of pgx.Rows, one result object per row.', LIB),
'P06': ('position and name of a column in the select list, and NULL-able columns.', 'the meaning of a catalog column is its name; that the catalog has these columns cannot be checked offline'),
'P07': ('typestate of pgx.Rows.', LIB),
'P08': ('the set of objects the conditions select, against a table of what excludes nothing but system objects.', 'the joins and conditions that occur are judged by rules written for the catalog; a new form is reported'),
'P09': ('lexicographic order of the documented keys, for all 3^n orderings of n keys.', MODEL),
'P10': ('struct tags of the parameters and the parser for each field type.', LIB),
'S01': ('declared password fields and PGPASSWORD as sources; calls outside the module as sinks.', 'field-based: all objects of a type are one; timing and memory are not considered'),
'D01': ('the `.rl` grammar, executed as a nondeterministic machine.', 'the grammar itself is taken as right; see the findings about it below'),
'D02': ('bounds, emptiness and progress in every configuration.', 'the functions actions call are inlined; memory exhaustion is outside'),
'D04': ('the actions of the grammar at the same place.', 'as D01; equality up to trimming and collapsing of spaces of collected tokens'),
'D05': ('reading back what was written: names and types agree on both sides.', 'HCL itself is trusted to read what it writes'),
'D06': ('quoting rules of SQL identifiers.', 'trigger functions are a known finding'),
'D07': ('the statement a description calls for: its clauses, in order, each present if and only if described.', 'expressions are copied as text'),
'C01': ('table of what each option is for, in p_cli.go, taken from the help texts.', 'kingpin stores values where it was told to'),
'C02': ('an error that may be non-nil makes the exit status non-zero.', 'errors of Close on files that were read, and of the terminal, are ignored'),
'C03': ('streams and files a command was given.', 'libraries do not write to the process\'s streams except where listed'),
'C04': ('the file is opened after everything was produced, and gets the whole buffer.', 'a crash of the machine during the write itself is outside (the file is not replaced atomically)'),
'C05': ('verbosity = a*verbose - b*quiet; levels per verbosity.', 'zap honours its levels'),
'C06': ('the core for the debug file has no level of its own.', 'zap writes what it accepts'),
'C07': ('complete traversal: each element reaches the print or drawing call.', 'gographviz draws what it is given'),
'T01': ('counting: results = tasks, and the results are closed after the last.', GO),
'T02': ('lockset of the target.', 'fields of the target that no task writes are free'),
'T03': ('one result per task, its own error, under its own ID.', GO),
'T04': ('the declarations of the file.', LIB),
'T05': ('running <= limit as an invariant of the loop.', GO),
'T06': ('the lists of the declaration.', LIB),
'T07': ('each exported field has a name in the file.', LIB),
}
