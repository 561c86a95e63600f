From 66a6ec3f91b14b7555f698a24d2bf06584e3310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 01/24] fix: report scheduler errors instead of succeeding
 without running anything

An unknown or circular dependency made scheduler.New fail inside the
scheduler goroutine, which dropped the error: the run reported success
although no task had been executed.
---
 internal/runbook/runner.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index fa46adb..65de941 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -63,8 +63,11 @@ func (r *runner) closeDone() {
 func (r *runner) run() error {
 	defer r.closeDone()
 
-	r.startScheduler()
-	err := r.startTargets()
+	err := r.startScheduler()
+	if err != nil {
+		return err
+	}
+	err = r.startTargets()
 	if err != nil {
 		return err
 	}
@@ -90,12 +93,16 @@ func (r *runner) run() error {
 	return err
 }
 
-func (r *runner) startScheduler() {
+func (r *runner) startScheduler() error {
+	s, ready, err := scheduler.New(r.targets, r.tasks)
+	if err != nil {
+		return err
+	}
+
 	go func(readyChan chan<- *readyMsg, doneChan <-chan TaskID) {
 		defer close(readyChan)
 
 		r.log.Debug("scheduler: started")
-		s, ready, err := scheduler.New(r.targets, r.tasks)
 		for {
 			if err != nil {
 				break
@@ -121,6 +128,8 @@ func (r *runner) startScheduler() {
 		}
 		r.log.Debug("scheduler: stopped")
 	}(r.ready, r.done)
+
+	return nil
 }
 
 func (r *runner) startTargets() (err error) {
-- 
2.43.0


From 6b9861fbc14c0a8d83f8d6e53e6e1a7332226fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 02/24] fix: keep draining a target's channel after one of its
 tasks failed

The target goroutine stopped receiving after a failed task. If another
task had already been scheduled for the same target (concurrency > 1),
the router blocked forever and so did the run.
---
 internal/runbook/runner.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 65de941..93cefcb 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -179,15 +179,18 @@ func startTargetGoroutine(
 	ended chan<- *endedMsg,
 ) {
 	go func() {
+		failed := false
 		for x := range ready {
+			if failed {
+				// keep receiving so the router is never blocked
+				continue
+			}
 			if x.message != "" {
 				log.Info(x.message)
 			}
 			err := target.Handle(ctx, x.task)
 			ended <- &endedMsg{taskID: x.taskID, err: err}
-			if err != nil {
-				break
-			}
+			failed = err != nil
 		}
 		target.Stop()
 		wg.Done()
-- 
2.43.0


From b933110c0d743a834a8f6f73444c4956a30b6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 03/24] fix: do not wait forever when a runbook has no tasks

---
 internal/runbook/runner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 93cefcb..9acc1ca 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -63,6 +63,10 @@ func (r *runner) closeDone() {
 func (r *runner) run() error {
 	defer r.closeDone()
 
+	if len(r.tasks) == 0 {
+		return nil
+	}
+
 	err := r.startScheduler()
 	if err != nil {
 		return err
-- 
2.43.0


From e78d0d72baf630a6179e27ce73072680270525c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 04/24] fix: stop already started targets when another target
 fails to start

The router kept dispatching tasks after a target failed to start, and
blocked forever on the missing channel of the target that did not. The
targets that had been started were never stopped.
---
 internal/runbook/runner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 9acc1ca..953e6a6 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -73,6 +73,10 @@ func (r *runner) run() error {
 	}
 	err = r.startTargets()
 	if err != nil {
+		r.closeDone()
+		for range r.ended {
+			// wait for the targets that did start to stop
+		}
 		return err
 	}
 
@@ -155,9 +159,13 @@ func (r *runner) startTargets() (err error) {
 
 	// start goroutine, even if there's an error, because it's
 	// responsible for closing channels
+	failed := err != nil
 	go func() {
 		r.log.Debug("router: started")
 		for x := range r.ready {
+			if failed {
+				continue
+			}
 			r.log.Debugw("router: task ready", "task", x.taskID, "target", x.target)
 			ch := channels[x.target]
 			ch <- x
-- 
2.43.0


From b472e380600924e776037058f901cdc27ac0a5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 05/24] fix: reject null targets and tasks instead of crashing

---
 internal/runbook/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runbook/parser/parser.go b/internal/runbook/parser/parser.go
index 0478b30..a13e0e6 100644
--- a/internal/runbook/parser/parser.go
+++ b/internal/runbook/parser/parser.go
@@ -82,6 +82,9 @@ func (p *Parser) Parse(filename string) (*types.Runbook, error) {
 
 func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 	for targetID, wrapper := range tmp.Targets {
+		if wrapper == nil {
+			return errors.New("invalid target")
+		}
 		factory, ok := p.Targets[wrapper.Class]
 		if !ok {
 			return errors.New("invalid target class")
@@ -107,6 +110,9 @@ func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 
 func (p *Parser) loadTasks(tmp *runbook, book *types.Runbook) error {
 	for taskID, task := range tmp.Tasks {
+		if task == nil {
+			return errors.New("invalid task")
+		}
 		targetID := task.Target
 		taskClass := ""
 		if idx := strings.Index(task.Target, "/"); idx != -1 {
-- 
2.43.0


From a302ec75cc42291c10a996131eb7414401efd7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 06/24] fix: return every ready task

After unlinking a ready task from the pending list, the task following
it was skipped, even if it was ready too.
---
 internal/dag/dependency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index 00df408..fa57c71 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -73,11 +73,13 @@ func (g *DependencyGraph) Next(completed string) []string {
 	}
 	g.pending = head
 
-	for head = g.pending; head != nil && head.next != nil; head = head.next {
+	for head = g.pending; head != nil && head.next != nil; {
 		p := head.next
 		if g.dependencies[p.id].Size() < 1 {
 			ready = append(ready, p.id)
 			head.next = p.next
+		} else {
+			head = p
 		}
 	}
 	return ready
-- 
2.43.0


From e1e231fd1846085d719b03d5fb199ab7951db1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 07/24] fix: stop connecting as soon as a connection was
 established

With ConnectRetries > 0, New kept opening connections after the first
one succeeded, leaked all but the last one, and failed if the last
attempt did. With ConnectRetries < 0, it returned a Conn without a
connection. Also, 2^n is not a power of two in Go.
---
 internal/pg/pg.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index f42475f..548fbcf 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -60,15 +60,16 @@ func New(o *Options) (*Conn, error) {
 
 	delay := 100 * time.Millisecond
 	var conn *pgx.Conn
-	for retries := 0; retries <= o.ConnectRetries; retries++ {
+	for retries := 0; ; retries++ {
 		conn, err = pgx.Connect(cfg)
-		if err != nil {
-			if retries < o.ConnectRetries {
-				time.Sleep(delay)
-				delay = time.Duration(2^retries) * 100 * time.Millisecond
-			} else {
-				return nil, err
-			}
+		if err == nil {
+			break
+		}
+		if retries < o.ConnectRetries {
+			time.Sleep(delay)
+			delay *= 2
+		} else {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From fa1f75b191a6ee0039448a2356655fa922607931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 08/24] fix: report errors that end the iteration over query
 results early

rows.Next() also returns false when the connection fails, in which case
a truncated description of the database was returned as if complete.
---
 internal/pg/check.go                    | 3 +++
 internal/pg/columns.go                  | 3 +++
 internal/pg/foreign_key.go              | 3 +++
 internal/pg/functions.go                | 3 +++
 internal/pg/index.go                    | 3 +++
 internal/pg/schemas.go                  | 3 +++
 internal/pg/sequence.go                 | 6 ++++++
 internal/pg/table_storage_parameters.go | 3 +++
 internal/pg/tables.go                   | 3 +++
 internal/pg/triggers.go                 | 3 +++
 10 files changed, 33 insertions(+)

diff --git a/internal/pg/check.go b/internal/pg/check.go
index d5fd7d1..ed3d7e7 100644
--- a/internal/pg/check.go
+++ b/internal/pg/check.go
@@ -46,6 +46,9 @@ func (c *Conn) ListChecks(schema, table string) ([]*ddl.Check, error) {
 		check.Name = name
 		checks = append(checks, check)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/columns.go b/internal/pg/columns.go
index 81e3ada..bb3f0a2 100644
--- a/internal/pg/columns.go
+++ b/internal/pg/columns.go
@@ -52,6 +52,9 @@ func (c *Conn) ListColumns(schema, table string) ([]*ddl.Column, error) {
 		c.log.Debugw("row scanned", "column", col.Name, "type", col.Type)
 		columns = append(columns, col)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/foreign_key.go b/internal/pg/foreign_key.go
index 03f76d8..d232ff7 100644
--- a/internal/pg/foreign_key.go
+++ b/internal/pg/foreign_key.go
@@ -48,6 +48,9 @@ func (c *Conn) ListForeignKeys(schema, table string) ([]*ddl.ForeignKey, error)
 		fk.Name = name
 		fks = append(fks, fk)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/functions.go b/internal/pg/functions.go
index c452dcc..4d955a7 100644
--- a/internal/pg/functions.go
+++ b/internal/pg/functions.go
@@ -109,6 +109,9 @@ func (c *Conn) ListFunctions() ([]*ddl.Function, error) {
 		c.log.Debugw("scanned", "function", function)
 		functions = append(functions, function)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/index.go b/internal/pg/index.go
index 18752e0..d913353 100644
--- a/internal/pg/index.go
+++ b/internal/pg/index.go
@@ -53,6 +53,9 @@ func (c *Conn) ListIndexes(schema, table string) ([]*ddl.Index, error) {
 		index.Primary = isPrimary
 		indexes = append(indexes, index)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/schemas.go b/internal/pg/schemas.go
index 7e6a3b0..9d0f9ae 100644
--- a/internal/pg/schemas.go
+++ b/internal/pg/schemas.go
@@ -41,6 +41,9 @@ func (c *Conn) ListSchemas() ([]*ddl.Schema, error) {
 		c.log.Debugw("row scanned", "schema", schema)
 		schemas = append(schemas, schema)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index ba46fd7..bbc1fef 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -152,6 +152,9 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -198,6 +201,9 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/table_storage_parameters.go b/internal/pg/table_storage_parameters.go
index cbc4d7e..51941e0 100644
--- a/internal/pg/table_storage_parameters.go
+++ b/internal/pg/table_storage_parameters.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTableStorageParameters(schema, table string) (*ddl.TableStora
 			return nil, err
 		}
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/tables.go b/internal/pg/tables.go
index e3084b8..022f579 100644
--- a/internal/pg/tables.go
+++ b/internal/pg/tables.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTables() ([]*ddl.Table, error) {
 		c.log.Debugw("row scanned", "table", table)
 		tables = append(tables, table)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/triggers.go b/internal/pg/triggers.go
index 492f7a7..6e80ecf 100644
--- a/internal/pg/triggers.go
+++ b/internal/pg/triggers.go
@@ -89,6 +89,9 @@ func (c *Conn) ListTriggers(schema, table string) ([]*ddl.Trigger, error) {
 		trigger.Schema = schema
 		triggers = append(triggers, trigger)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9782a560c5bd76665180e01b39bbfd5ff4722a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 09/24] fix: sort check constraints before they are copied to
 the table

---
 internal/pg/inspect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/pg/inspect.go b/internal/pg/inspect.go
index 028722b..9803a5d 100644
--- a/internal/pg/inspect.go
+++ b/internal/pg/inspect.go
@@ -87,14 +87,14 @@ func (c *Conn) inspectTable(o *InspectOptions, db *ddl.Database, table *ddl.Tabl
 	if err != nil {
 		return err
 	}
-	if len(checks) > 0 {
-		table.Checks = append(table.Checks, checks...)
-	}
 	if o.SortChecks {
 		sort.Slice(checks, func(i, j int) bool {
 			return (checks[i].Expression < checks[j].Expression)
 		})
 	}
+	if len(checks) > 0 {
+		table.Checks = append(table.Checks, checks...)
+	}
 
 	fks, err := c.ListForeignKeys(table.Schema, table.Name)
 	if err != nil {
-- 
2.43.0


From 01de79b7302fd44b19299c60c16ae8c7f9bd2f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 10/24] fix: log the number of affected rows when a statement
 succeeded

---
 internal/pg/pg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index 548fbcf..60587c4 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -89,7 +89,7 @@ func (c *Conn) Close() error {
 func (c *Conn) Exec(sql string) error {
 	c.log.Debugw("executing sql", "sql", sql)
 	tag, err := c.conn.Exec(sql)
-	if err != nil {
+	if err == nil {
 		c.log.Debugf("rows affected = %d", tag.RowsAffected())
 	}
 	return err
-- 
2.43.0


From 90769cf54647d50daa3facd21df291cc17bd7cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 11/24] fix: report failures to write a command's output

Also, write the build details of the version command to the configured
output instead of the process's stdout.
---
 internal/commands/ping.go           |  2 +-
 internal/commands/runbook_list.go   | 10 ++++++++--
 internal/commands/version.go        | 13 ++++++++-----
 internal/commands/version_legacy.go |  4 ++--
 internal/runbook/runbook.go         |  4 ++--
 5 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/internal/commands/ping.go b/internal/commands/ping.go
index 85397cc..bf5dd69 100644
--- a/internal/commands/ping.go
+++ b/internal/commands/ping.go
@@ -33,7 +33,7 @@ func (c *PingCmd) Run(base *Base) error {
 
 	version, err := conn.ServerVersion()
 	if err == nil {
-		fmt.Fprintln(base.Stdout, version)
+		_, err = fmt.Fprintln(base.Stdout, version)
 	}
 	return err
 }
diff --git a/internal/commands/runbook_list.go b/internal/commands/runbook_list.go
index c8fbbe3..051b222 100644
--- a/internal/commands/runbook_list.go
+++ b/internal/commands/runbook_list.go
@@ -30,10 +30,16 @@ func (c *RunBookListCmd) Run(base *Base) error {
 	}
 	sort.Strings(sorted)
 
-	fmt.Fprintln(base.Stdout, "Tasks & Targets:")
+	_, err = fmt.Fprintln(base.Stdout, "Tasks & Targets:")
+	if err != nil {
+		return err
+	}
 	for _, task := range sorted {
 		target := tasks[runbook.TaskID(task)]
-		fmt.Fprintf(base.Stdout, "  %-*s  %s\n", longest, task, target)
+		_, err = fmt.Fprintf(base.Stdout, "  %-*s  %s\n", longest, task, target)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/internal/commands/version.go b/internal/commands/version.go
index 50b1b1e..eea912a 100644
--- a/internal/commands/version.go
+++ b/internal/commands/version.go
@@ -18,12 +18,15 @@ type VersionCmd struct {
 
 // Run executes the command
 func (c *VersionCmd) Run(base *Base) error {
-	fmt.Fprintln(base.Stdout, c.App, c.Build)
-	if c.Verbose && c.BuildInfo != nil {
-		fmt.Println("")
+	_, err := fmt.Fprintln(base.Stdout, c.App, c.Build)
+	if err == nil && c.Verbose && c.BuildInfo != nil {
+		_, err = fmt.Fprintln(base.Stdout, "")
 		for _, m := range c.BuildInfo.Deps {
-			fmt.Printf("%-40s %-35s\n", m.Path, m.Version)
+			if err != nil {
+				break
+			}
+			_, err = fmt.Fprintf(base.Stdout, "%-40s %-35s\n", m.Path, m.Version)
 		}
 	}
-	return nil
+	return err
 }
diff --git a/internal/commands/version_legacy.go b/internal/commands/version_legacy.go
index b6676bd..85dcea2 100644
--- a/internal/commands/version_legacy.go
+++ b/internal/commands/version_legacy.go
@@ -14,6 +14,6 @@ type VersionCmd struct {
 
 // Run executes the command
 func (c *VersionCmd) Run(base *Base) error {
-	fmt.Fprintln(base.Stdout, c.App, c.Build)
-	return nil
+	_, err := fmt.Fprintln(base.Stdout, c.App, c.Build)
+	return err
 }
diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 41d2c94..7af1f0f 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -78,8 +78,8 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		}
 	}
 
-	w.Write([]byte(g.String()))
-	return nil
+	_, err = w.Write([]byte(g.String()))
+	return err
 }
 
 // Eval converts a runbook to JSON and pretty prints it
-- 
2.43.0


From d32f7c020a64dcebfad6a8ec40bc3566ab3123f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 12/24] fix: do not truncate the output file before its content
 is known

"runbook dot" and "runbook eval" truncated the output file before the
runbook was evaluated, so its previous content was lost if the runbook
was invalid. The output file was also never closed, and errors reported
by close were lost.
---
 internal/commands/base.go         | 11 +++++++++++
 internal/commands/inspect.go      | 14 +++++---------
 internal/commands/runbook_dot.go  | 14 ++++++--------
 internal/commands/runbook_eval.go | 23 ++++++++++++-----------
 4 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/internal/commands/base.go b/internal/commands/base.go
index a32a803..3245ebb 100644
--- a/internal/commands/base.go
+++ b/internal/commands/base.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"io/ioutil"
 	"os"
 
 	"github.com/sjansen/pgutil/internal/sys"
@@ -13,3 +14,13 @@ type Base struct {
 	Debug     *os.File
 	Verbosity int
 }
+
+// writeOutput writes a command's complete output to a file, or to stdout if
+// the filename is empty or "-"
+func (b *Base) writeOutput(filename string, data []byte) error {
+	if filename == "" || filename == "-" {
+		_, err := b.Stdout.Write(data)
+		return err
+	}
+	return ioutil.WriteFile(filename, data, 0666)
+}
diff --git a/internal/commands/inspect.go b/internal/commands/inspect.go
index ed9e033..f17d164 100644
--- a/internal/commands/inspect.go
+++ b/internal/commands/inspect.go
@@ -1,7 +1,7 @@
 package commands
 
 import (
-	"os"
+	"bytes"
 
 	"github.com/sjansen/pgutil/internal/pg"
 )
@@ -45,13 +45,9 @@ func (c *InspectCmd) Run(base *Base) error {
 		return err
 	}
 
-	w := base.Stdout
-	if c.Output != "" && c.Output != "-" {
-		w, err = os.OpenFile(c.Output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-		if err != nil {
-			return err
-		}
+	var buf bytes.Buffer
+	if err = db.Write(&buf); err != nil {
+		return err
 	}
-
-	return db.Write(w)
+	return base.writeOutput(c.Output, buf.Bytes())
 }
diff --git a/internal/commands/runbook_dot.go b/internal/commands/runbook_dot.go
index 4a4f9c7..9b22f6e 100644
--- a/internal/commands/runbook_dot.go
+++ b/internal/commands/runbook_dot.go
@@ -1,7 +1,7 @@
 package commands
 
 import (
-	"os"
+	"bytes"
 	"path/filepath"
 
 	"github.com/sjansen/pgutil/internal/runbook"
@@ -27,12 +27,10 @@ func (c *RunBookDotCmd) Run(base *Base) (err error) {
 		output = src[:len(src)-len(ext)] + ".dot"
 	}
 
-	w := base.Stdout
-	if output != "-" {
-		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-		if err != nil {
-			return err
-		}
+	var buf bytes.Buffer
+	err = runbook.Dot(&base.IO, c.File, &buf, c.Splines)
+	if err != nil {
+		return err
 	}
-	return runbook.Dot(&base.IO, c.File, w, c.Splines)
+	return base.writeOutput(output, buf.Bytes())
 }
diff --git a/internal/commands/runbook_eval.go b/internal/commands/runbook_eval.go
index 0e04c2b..728d9c4 100644
--- a/internal/commands/runbook_eval.go
+++ b/internal/commands/runbook_eval.go
@@ -1,7 +1,7 @@
 package commands
 
 import (
-	"os"
+	"bytes"
 
 	isatty "github.com/mattn/go-isatty"
 
@@ -22,22 +22,23 @@ func (c *RunBookEvalCmd) Run(base *Base) (err error) {
 		output = c.Output
 	}
 
-	w := base.Stdout
-	if output != "-" {
-		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-		if err != nil {
-			return err
-		}
-	}
-
 	color := false
 	switch c.Color {
 	case "auto":
-		if x, ok := w.(interface{ Fd() uintptr }); ok {
+		if output != "-" {
+			break
+		}
+		if x, ok := base.Stdout.(interface{ Fd() uintptr }); ok {
 			color = isatty.IsTerminal(x.Fd())
 		}
 	case "true":
 		color = true
 	}
-	return runbook.Eval(&base.IO, c.File, w, color)
+
+	var buf bytes.Buffer
+	err = runbook.Eval(&base.IO, c.File, &buf, color)
+	if err != nil {
+		return err
+	}
+	return base.writeOutput(output, buf.Bytes())
 }
-- 
2.43.0


From a25d11bde24e3cc1f5ddfaf5967f4889b625b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 13/24] fix: do not drop the storage parameter
 autovacuum_vacuum_cost_delay

Its field was used for autovacuum_vacuum_cost_limit instead.
---
 internal/ddl/table_storage_parameters.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/table_storage_parameters.go b/internal/ddl/table_storage_parameters.go
index b3c9bc9..cfec515 100644
--- a/internal/ddl/table_storage_parameters.go
+++ b/internal/ddl/table_storage_parameters.go
@@ -11,7 +11,8 @@ type TableStorageParameters struct {
 	AutovacuumVacuumScaleFactor       *float64 `hcl:"autovacuum_vacuum_scale_factor,optional"`
 	AutovacuumAnalyzeThreshold        *int     `hcl:"autovacuum_analyze_threshold,optional"`
 	AutovacuumAnalyzeScaleFactor      *float64 `hcl:"autovacuum_analyze_scale_factor,optional"`
-	AutovacuumVacuumCostDelay         *int     `hcl:"autovacuum_vacuum_cost_limit,optional"`
+	AutovacuumVacuumCostDelay         *float64 `hcl:"autovacuum_vacuum_cost_delay,optional"`
+	AutovacuumVacuumCostLimit         *int     `hcl:"autovacuum_vacuum_cost_limit,optional"`
 	AutovacuumFreezeMinAge            *int     `hcl:"autovacuum_freeze_min_age,optional"`
 	AutovacuumFreezeMaxAge            *int     `hcl:"autovacuum_freeze_max_age,optional"`
 	AutovacuumFreezeTableAge          *int     `hcl:"autovacuum_freeze_table_age,optional"`
@@ -53,9 +54,13 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		tmp, err := strconv.ParseFloat(value, 64)
 		p.AutovacuumAnalyzeScaleFactor = &tmp
 		return err
+	case "autovacuum_vacuum_cost_delay":
+		tmp, err := strconv.ParseFloat(value, 64)
+		p.AutovacuumVacuumCostDelay = &tmp
+		return err
 	case "autovacuum_vacuum_cost_limit":
 		tmp, err := strconv.Atoi(value)
-		p.AutovacuumVacuumCostDelay = &tmp
+		p.AutovacuumVacuumCostLimit = &tmp
 		return err
 	case "autovacuum_freeze_min_age":
 		tmp, err := strconv.Atoi(value)
-- 
2.43.0


From ba602d32b87461ff0e54bf23915cc0e86e968671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 14/24] fix: report the position of a parse error, not the
 parser's state

parseError expects the offset of the offending character.
---
 internal/ddl/check_parser.go       | 2 +-
 internal/ddl/check_parser.rl       | 2 +-
 internal/ddl/foreign_key_parser.go | 2 +-
 internal/ddl/foreign_key_parser.rl | 2 +-
 internal/ddl/index_parser.go       | 2 +-
 internal/ddl/index_parser.rl       | 2 +-
 internal/ddl/trigger_parser.go     | 2 +-
 internal/ddl/trigger_parser.rl     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 83d0ae7..6805e32 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -1114,7 +1114,7 @@ tr39:
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index 44f37ba..d6d475c 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -46,7 +46,7 @@ func ParseCheck(data string) (*Check, error) {
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index 1b19665..b974cfa 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -3975,7 +3975,7 @@ tr193:
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index 17a6cfe..cc88f1c 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -83,7 +83,7 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.go b/internal/ddl/index_parser.go
index 3b6e1bc..4514246 100644
--- a/internal/ddl/index_parser.go
+++ b/internal/ddl/index_parser.go
@@ -1269,7 +1269,7 @@ tr64:
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.rl b/internal/ddl/index_parser.rl
index d6d98c5..f853b34 100644
--- a/internal/ddl/index_parser.rl
+++ b/internal/ddl/index_parser.rl
@@ -84,7 +84,7 @@ func ParseIndex(data string) (*Index, error) {
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/trigger_parser.go b/internal/ddl/trigger_parser.go
index 8b8cc35..d24e58a 100644
--- a/internal/ddl/trigger_parser.go
+++ b/internal/ddl/trigger_parser.go
@@ -3378,7 +3378,7 @@ tr195:
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/trigger_parser.rl b/internal/ddl/trigger_parser.rl
index 0922ff0..b914b35 100644
--- a/internal/ddl/trigger_parser.rl
+++ b/internal/ddl/trigger_parser.rl
@@ -91,7 +91,7 @@ func ParseTrigger(data string) (*Trigger, error) {
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
-- 
2.43.0


From 6215da67220540c56fe7685b0d3f9988642d579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 15/24] fix: close the results of a target without running
 tasks

If no task was running when the queue was closed, the results were never
closed, and the goroutine never ended.
---
 internal/taskset/base/base.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 406910e..a1377d7 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -53,14 +53,10 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 			}
 		}
 	shutdown:
-		for result := range relay {
-			results <- result
-			running--
-			if running < 1 {
-				close(relay)
-				close(results)
-			}
+		for ; running > 0; running-- {
+			results <- <-relay
 		}
+		close(results)
 	}(queue, results)
 
 	return queue, results
-- 
2.43.0


From c478a9ad3665d25af87c5886eaf03a07dd32af55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:08 +0000
Subject: [PATCH 16/24] fix: do not consider a task named "" completed before
 it was started

---
 internal/dag/dependency.go              | 7 ++++++-
 internal/runbook/scheduler/scheduler.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index fa57c71..cf77ac4 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -61,11 +61,16 @@ func (g *DependencyGraph) HasPending() bool {
 // Next registers the completion of a a task and returns a list of tasks
 // that can be started given previously completed tasks
 func (g *DependencyGraph) Next(completed string) []string {
-	var ready []string
 	for id := range g.dependents[completed] {
 		g.dependencies[id].Remove(completed)
 	}
+	return g.Ready()
+}
 
+// Ready returns a list of tasks that can be started given previously
+// completed tasks
+func (g *DependencyGraph) Ready() []string {
+	var ready []string
 	head := g.pending
 	for head != nil && g.dependencies[head.id].Size() < 1 {
 		ready = append(ready, head.id)
diff --git a/internal/runbook/scheduler/scheduler.go b/internal/runbook/scheduler/scheduler.go
index b860a88..5615a50 100644
--- a/internal/runbook/scheduler/scheduler.go
+++ b/internal/runbook/scheduler/scheduler.go
@@ -48,7 +48,7 @@ func New(targets types.Targets, tasks types.Tasks) (s *Scheduler, ready map[stri
 		return nil, nil, err
 	}
 
-	s.fillPending(s.deps.Next(""))
+	s.fillPending(s.deps.Ready())
 	return s, s.buildReady(), nil
 }
 
-- 
2.43.0


From d8ce67ae9b0d36cdfdeb8c350e074061d28a4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 17/24] fix: do not crash if max_concurrency of a task set
 target is negative

---
 internal/taskset/base/base.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index a1377d7..f5eea09 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -28,6 +28,9 @@ func (t *Task) Provides() []string {
 type RunTask func(types.TaskID, types.Task, chan<- types.TaskResults)
 
 func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan types.TaskResults) {
+	if maxConcurrency < 1 {
+		maxConcurrency = 1
+	}
 	queue := make(chan types.TaskBatch, maxConcurrency)
 	results := make(chan types.TaskResults, maxConcurrency)
 
-- 
2.43.0


From 5591ba1f98546e88cfeb7d229b61e30514391f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 18/24] fix: never run more tasks of a task set target at once
 than max_concurrency allows

---
 internal/taskset/base/base.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index f5eea09..8ed95ef 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -43,6 +43,10 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 			case tasks, ok := <-queue:
 				if ok {
 					for id, task := range tasks {
+						for running >= maxConcurrency {
+							results <- <-relay
+							running--
+						}
 						fmt.Println(id)
 						fn(id, task, relay)
 						running++
-- 
2.43.0


From e5d4ccf39f8c645ed68e1af196bffcbd2c631605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 19/24] fix: reject unknown types of pg and sh tasks in task
 sets

---
 internal/taskset/pg/pg.go | 3 +++
 internal/taskset/sh/sh.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/taskset/pg/pg.go b/internal/taskset/pg/pg.go
index 7f48056..80142d3 100644
--- a/internal/taskset/pg/pg.go
+++ b/internal/taskset/pg/pg.go
@@ -34,6 +34,9 @@ type Target struct {
 
 // NewTask creates a new Task of type typ with default settings
 func (t *Target) NewTask(typ string) (types.Task, error) {
+	if typ != "" {
+		return nil, errors.New("invalid task type")
+	}
 	return &Task{}, nil
 }
 
diff --git a/internal/taskset/sh/sh.go b/internal/taskset/sh/sh.go
index 9714452..bcfec8a 100644
--- a/internal/taskset/sh/sh.go
+++ b/internal/taskset/sh/sh.go
@@ -34,6 +34,9 @@ type Target struct {
 
 // NewTask creates a new Task of type typ with default settings
 func (t *Target) NewTask(typ string) (types.Task, error) {
+	if typ != "" {
+		return nil, errors.New("invalid task type")
+	}
 	return &Task{}, nil
 }
 
-- 
2.43.0


From 1ae5979549ff38ed3f8a889407c36e5bd6865ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 20/24] fix: reject task sets that declare a target or task
 twice

---
 internal/taskset/parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/taskset/parser/parser.go b/internal/taskset/parser/parser.go
index 593b6b2..d82ab02 100644
--- a/internal/taskset/parser/parser.go
+++ b/internal/taskset/parser/parser.go
@@ -86,11 +86,17 @@ func (p *Parser) loadDefaultTargets(ts *types.TaskSet) error {
 }
 
 func (p *Parser) loadExplicitTargets(raw *taskSet, ts *types.TaskSet) error {
+	declared := map[string]bool{}
 	for _, t := range raw.Targets {
 		factory, ok := p.Targets[t.Type]
 		if !ok {
 			return errors.New("invalid target type")
 		}
+		key := t.Type + "/" + t.ID
+		if declared[key] {
+			return errors.New("duplicate target")
+		}
+		declared[key] = true
 		target := factory.NewTarget()
 		err := gohcl.DecodeBody(t.Config, nil, target)
 		if err != nil {
@@ -119,6 +125,10 @@ func (p *Parser) loadTasks(raw *taskSet, ts *types.TaskSet) error {
 			return errors.New("invalid target")
 		}
 
+		if _, ok := ts.Tasks[types.TaskID(t.ID)]; ok {
+			return errors.New("duplicate task")
+		}
+
 		task, err := target.NewTask(taskType)
 		if err != nil {
 			return err
-- 
2.43.0


From c19674145ea2028af528d6403dec0abf3cadd480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 21/24] fix: do not lose the dependencies of the tasks of a
 task set

---
 internal/taskset/base/base.go     | 7 +++++++
 internal/taskset/parser/parser.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 8ed95ef..965302c 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -13,6 +13,13 @@ type Task struct {
 	Require []string `hcl:"require,optional"`
 }
 
+// Declare records what the task depends on and provides
+func (t *Task) Declare(after, provide, require []string) {
+	t.After = after
+	t.Provide = provide
+	t.Require = require
+}
+
 func (t *Task) Dependencies() []string {
 	deps := make([]string, 0, len(t.After)+len(t.Require))
 	for _, id := range t.After {
diff --git a/internal/taskset/parser/parser.go b/internal/taskset/parser/parser.go
index d82ab02..f4299ec 100644
--- a/internal/taskset/parser/parser.go
+++ b/internal/taskset/parser/parser.go
@@ -35,6 +35,10 @@ type task struct {
 	Config hcl.Body `hcl:",remain"`
 }
 
+type dependent interface {
+	Declare(after, provide, require []string)
+}
+
 // Parser registers available targets and tasks
 type Parser struct {
 	Targets map[string]types.TargetFactory
@@ -138,6 +142,9 @@ func (p *Parser) loadTasks(raw *taskSet, ts *types.TaskSet) error {
 		if diag != nil && diag.HasErrors() {
 			return diag
 		}
+		if d, ok := task.(dependent); ok {
+			d.Declare(t.After, t.Provide, t.Require)
+		}
 
 		ts.Tasks[types.TaskID(t.ID)] = task
 	}
-- 
2.43.0


From 49a196fc577cb0c298ccbe8ecdf54832133d108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 22/24] fix: allow the duration of sleep tasks of task sets to
 be declared

---
 internal/taskset/demo/sleep.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/taskset/demo/sleep.go b/internal/taskset/demo/sleep.go
index 46d4db1..4597fdb 100644
--- a/internal/taskset/demo/sleep.go
+++ b/internal/taskset/demo/sleep.go
@@ -11,7 +11,7 @@ var _ execer = &Sleep{}
 // Sleep pauses the current target for Seconds seconds when executed
 type Sleep struct {
 	base.Task
-	Seconds int
+	Seconds int `hcl:"seconds,optional"`
 }
 
 // Ready validates the task's settings
-- 
2.43.0


From 2997ed88f4205f47e15e9bd7600868c211082458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:54 +0000
Subject: [PATCH 23/24] fix: show the line that an unexpected line break ends,
 not the next one

---
 internal/ddl/parser_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 51cfee7..ed1766c 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -39,7 +39,7 @@ OUTER:
 		switch {
 		case idx == -1:
 			break OUTER
-		case idx > cs:
+		case idx >= cs:
 			data = data[:idx]
 			break OUTER
 		default:
-- 
2.43.0


From 7e5de708a0fe854f59b8de947f3e24ad31cf5f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:01 +0000
Subject: [PATCH 24/24] fix: point at the right character in lines with
 multi-byte characters

---
 internal/ddl/parser_utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index ed1766c..07295df 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 var whitespace = regexp.MustCompile(`\s+`)
@@ -49,5 +50,6 @@ OUTER:
 		}
 	}
 
-	return fmt.Sprintf("%s\n%*s", data, cs+1, "^")
+	column := utf8.RuneCountInString(data[:cs]) + 1
+	return fmt.Sprintf("%s\n%*s", data, column, "^")
 }
-- 
2.43.0

