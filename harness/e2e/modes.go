package e2e

import (
	"strings"

	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

func dialect() kit.Dialect {
	d := kit.Dialect(sym.Choice(4))
	sym.Tag(d.String())
	return d
}

func script(d kit.Dialect, s string) *kit.DB {
	db, e := kit.Script(d, s)
	if e != "" {
		sym.Dump("refused: " + e)
	}
	sym.Assume(e == "")
	return db
}

func equalDB(a, b *kit.DB) bool { return kit.Diff(a, b) == "" && kit.Diff(b, a) == "" }

// c07: with --skip-drop the statements executed are exactly the planned ones that
// do not drop anything; the others are reported.
func c07(d kit.Dialect, cur, des string) {
	plan := Run(script(d, cur), des, sqldef.Options{DryRun: true})
	sym.Assume(plan.Code == 0)
	if plan.Out == "-- Nothing is modified --\n" {
		sym.Cover("empty plan")
		return
	}
	want, ok := Printed(plan.Out, "-- dry run --")
	sym.Assert(ok, "the dry run output is not a list of statements")
	s := kit.NewServer(script(d, cur))
	s.Raw = true
	r := RunOn(s, des, sqldef.Options{SkipDrop: true})
	sym.Assert(r.Code == 0, "the run fails")
	got, ok := Printed(r.Out, "-- Apply --")
	sym.Assert(ok, "the output is not a list of statements")
	sym.Assert(len(got) == len(want), "the number of statements reported differs from the plan")
	w := s.Writes()
	k := 0
	for i, l := range want {
		drop := Destructive(d, l.SQL)
		sym.Assert(got[i].SQL == l.SQL, "a statement is reported that was not planned")
		if drop {
			sym.Assert(k >= len(w) || w[k] != l.SQL, "a destructive statement is executed")
			sym.Assert(got[i].Skip, "a destructive statement is not reported as skipped")
			sym.Cover("skipped")
		} else {
			sym.Assert(!got[i].Skip, "a harmless statement is skipped")
			sym.Assert(k < len(w) && w[k] == l.SQL, "a harmless statement is not executed")
			k++
			sym.Cover("executed")
		}
	}
	sym.Assert(k == len(w), "an unplanned statement is executed")
}

func HC07My()   { world(kit.My, 3, c07) }
func HC07Pg()   { world(kit.Pg, 3, c07) }
func HC07Lite() { world(kit.Lite, 3, c07) }
func HC07Ms()   { world(kit.Ms, 3, c07) }

func world(d kit.Dialect, k int, f func(d kit.Dialect, cur, des string)) {
	w := NewWorld(d, false)
	cur, des := w.Pick(k, false)
	f(d, w.SQL(cur), w.SQL(des))
}

// HC07Names: names and values that contain the word DROP are not destructive.
func HC07Names() {
	d := dialect()
	b := make([]byte, 5)
	for i := range b {
		b[i] = sym.ByteIn("DROPdrop x")
	}
	sym.Assume(b[0] != ' ' && b[4] != ' ')
	n := string(b)
	q := kit.Q(d, n)
	base := "CREATE TABLE " + kit.Q(d, "w") + " (x int NOT NULL"
	switch sym.Choice(4) {
	case 0:
		sym.Tag("table")
		c07(d, base+")", base+");\nCREATE TABLE "+q+" (x int)")
	case 1:
		sym.Tag("column")
		c07(d, base+")", base+", "+q+" int)")
	case 2:
		sym.Tag("default")
		c07(d, base+")", base+", y varchar(9) DEFAULT '"+n+"')")
	case 3:
		sym.Tag("view")
		c07(d, base+")", base+");\nCREATE VIEW y AS select x from w where x = '"+n+"'")
	}
}

// c08: a dry run writes nothing and prints what a real run executes.
func c08(d kit.Dialect, cur, des string) {
	skip := sym.Choice(2) == 1
	before := script(d, cur)
	a := Run(script(d, cur), des, sqldef.Options{DryRun: true, SkipDrop: skip})
	sym.Assert(len(a.S.Writes()) == 0, "a dry run executes a statement")
	sym.Assert(a.S.Count("begin") == 0, "a dry run opens a transaction")
	sym.Assert(equalDB(a.S.DB, before), "a dry run changes the schema")
	s := kit.NewServer(script(d, cur))
	s.Raw = true
	b := RunOn(s, des, sqldef.Options{SkipDrop: skip})
	sym.Assert(a.Code == b.Code, "the exit status differs")
	if a.Code != 0 || a.Out == "-- Nothing is modified --\n" || b.Out == "-- Nothing is modified --\n" {
		sym.Assert(a.Out == b.Out && len(b.S.Writes()) == 0, "a dry run and a real run disagree on whether anything changes")
		sym.Cover("nothing")
		return
	}
	sym.Assert(strings.HasPrefix(a.Out, "-- dry run --\n") && strings.HasPrefix(b.Out, "-- Apply --\n"), "header")
	x, y := a.Out[len("-- dry run --\n"):], b.Out[len("-- Apply --\n"):]
	sym.Assert(x == y, "a dry run prints other statements than a real run")
	l, ok := Printed(b.Out, "-- Apply --")
	sym.Assert(ok, "the output is not a list of statements")
	k := 0
	w := s.Writes()
	for _, p := range l {
		if !p.Skip {
			sym.Assert(k < len(w) && w[k] == p.SQL, "a printed statement is not the one executed")
			k++
		}
	}
	sym.Assert(k == len(w), "a statement is executed but not printed")
	sym.Cover("plan")
}

func HC08My()   { world(kit.My, 3, c08) }
func HC08Pg()   { world(kit.Pg, 3, c08) }
func HC08Lite() { world(kit.Lite, 3, c08) }
func HC08Ms()   { world(kit.Ms, 3, c08) }

// c09: one transaction, all or nothing, under a failure at any call.
func c09(d kit.Dialect, cur, des string) {
	before := script(d, cur)
	// calls of an undisturbed run
	ref := Run(script(d, cur), des, sqldef.Options{})
	sym.Assume(ref.Code == 0)
	sym.Assume(len(ref.S.Writes()) > 0)
	first, n := -1, 0
	for i, c := range ref.S.Log {
		if c.Kind == "begin" {
			first = i
		}
		if c.Kind != "close" {
			n = i + 1
		}
	}
	checkTx(ref)
	sym.Assert(first >= 0, "no transaction is opened")
	sym.Assert(ref.S.Log[n-1].Kind == "commit", "the transaction is not committed last")
	at := first + sym.Choice(n-first)
	s := kit.NewServer(script(d, cur))
	s.FailAt, s.FailHow = at, kit.FaultErr
	r := RunOn(s, des, sqldef.Options{})
	sym.Tag("fail at " + ref.S.Log[at].Kind)
	sym.Assert(r.Code != 0, "a failure is reported as success")
	sym.Assert(r.Code > 1000, "a failure ends in a crash")
	sym.Assert(equalDB(s.DB, before), "a failed run leaves changes behind")
	bad := false
	for _, c := range s.Log {
		if c.Kind == "exec" {
			sym.Assert(!bad, "a statement is executed after a failure")
			bad = bad || c.Err
		}
		if c.Kind == "commit" {
			sym.Assert(!bad, "a transaction is committed after a failure")
		}
	}
	if bad {
		sym.Assert(s.Count("rollback") == 1, "the transaction is not rolled back")
	}
	checkTx(r)
	sym.Cover("failed")
}

// checkTx: every statement runs inside the one transaction.
func checkTx(r R) {
	sym.Assert(r.S.Count("begin") == 1, "not exactly one transaction")
	for _, c := range r.S.Log {
		if c.Kind == "exec" {
			sym.Assert(c.InTx, "a statement is executed outside the transaction")
		}
	}
}

func HC09My()   { world(kit.My, 3, c09) }
func HC09Pg()   { world(kit.Pg, 3, c09) }
func HC09Lite() { world(kit.Lite, 3, c09) }
func HC09Ms()   { world(kit.Ms, 3, c09) }

// HC09Skip: the same with --skip-drop, and a plan whose statements the server refuses.
func HC09Refuse() {
	d := dialect()
	n := kit.Names(3, 1)
	cur := "CREATE TABLE " + n[0] + " (" + n[1] + " int NOT NULL)"
	des := "CREATE TABLE " + n[0] + " (" + n[1] + " int NOT NULL);\nCREATE TABLE " + n[2] + " (" + n[1] + " int);\nCREATE VIEW " + n[2] + " AS select " + n[1] + " from " + n[0]
	before := script(d, cur)
	r := Run(script(d, cur), des, sqldef.Options{SkipDrop: sym.Choice(2) == 1})
	sym.Assert(r.S.Refused != "", "the plan is accepted")
	sym.Assert(r.Failed(), "a refused statement is reported as success")
	sym.Assert(equalDB(r.S.DB, before), "a failed run leaves changes behind")
	sym.Cover("refused")
}

// c10: export is read-only and complete.
func c10(d kit.Dialect, cur, _ string) {
	db := script(d, cur)
	before := db.Clone()
	r := Run(db, "CREATE TABLE never (read int)", sqldef.Options{Export: true, DryRun: sym.Choice(2) == 1, SkipDrop: sym.Choice(2) == 1})
	sym.Assert(r.Code == 0, "the export fails")
	sym.Assert(len(r.S.Writes()) == 0, "an export executes a statement")
	sym.Assert(r.S.Count("begin") == 0, "an export opens a transaction")
	sym.Assert(equalDB(r.S.DB, before), "an export changes the schema")
	back, e := kit.Script(d, r.Out)
	sym.Assert(e == "", "the export cannot be read back: "+reason(e))
	x := kit.Diff(back, before)
	sym.Assert(x == "", "exported schema: "+x)
	x = kit.Diff(before, back)
	sym.Assert(x == "", "exported schema: "+x)
	sym.Assert(strings.HasSuffix(r.Out, ";\n"), "the export does not end a statement")
	sym.Cover("export")
}

// reason drops the statement from a Script error.
func reason(e string) string {
	if i := strings.Index(e, ": "); i >= 0 {
		return e[:i]
	}
	return e
}

func HC10My()   { world(kit.My, 3, c10) }
func HC10Pg()   { world(kit.Pg, 3, c10) }
func HC10Lite() { world(kit.Lite, 2, c10) }
func HC10Ms()   { world(kit.Ms, 3, c10) }

// HC10Empty: the notice for an empty database.
func HC10Empty() {
	d := dialect()
	r := Run(kit.NewDB(d), "", sqldef.Options{Export: true, DryRun: sym.Choice(2) == 1, SkipDrop: sym.Choice(2) == 1})
	sym.Assert(r.Code == 0 && r.Out == "-- No table exists --\n", "an empty database is not exported as such")
	sym.Assert(len(r.S.Writes()) == 0, "an export executes a statement")
	sym.Cover("empty")
}

// c11: a failed read of the current schema never leads to a plan.
func c11(d kit.Dialect, cur, des string) {
	before := script(d, cur)
	ref := Run(script(d, cur), des, sqldef.Options{DryRun: true})
	sym.Assume(ref.Code == 0)
	n := ref.S.Count("query")
	s := kit.NewServer(script(d, cur))
	s.FailAt, s.FailHow = sym.Choice(n), 1+sym.Choice(3)
	o := sqldef.Options{}
	switch sym.Choice(3) {
	case 1:
		o.Export = true
	case 2:
		o.DryRun = true
	}
	r := RunOn(s, des, o)
	sym.Tag([]string{"", "query", "scan", "end of rows"}[s.FailHow])
	sym.Tag(what(ref.S.Log[s.FailAt].Text))
	sym.Assert(r.Code != 0, "a failed read goes unnoticed")
	sym.Assert(r.Code > 1000, "a failed read ends in a crash")
	sym.Assert(len(s.Writes()) == 0 && equalDB(s.DB, before), "a change is made after a failed read")
	sym.Assert(r.Out == "", "output is printed after a failed read")
	sym.Cover("failed read")
}

// what names a catalog query.
func what(q string) string {
	q = strings.ToLower(q)
	for _, w := range []string{"show full tables", "show create table", "information_schema.views", "show triggers", "sqlite_master", "pg_views", "information_schema.tables", "pg_attribute", "pg_indexes", "'primary key'", "'foreign key'", "pg_policies", "sys.views", "sys.triggers", "sys.objects", "sys.columns", "sys.index_columns", "sys.indexes", "sys.foreign_keys"} {
		if strings.Contains(q, w) {
			return w
		}
	}
	return "other query"
}

func HC11My()   { world(kit.My, 2, c11) }
func HC11Pg()   { world(kit.Pg, 2, c11) }
func HC11Lite() { world(kit.Lite, 2, c11) }
func HC11Ms()   { world(kit.Ms, 2, c11) }

// c17: the same inputs give the same output whatever the map order.
func c17(d kit.Dialect, cur, des string) {
	o := sqldef.Options{DryRun: true}
	if sym.Choice(2) == 1 {
		o = sqldef.Options{Export: true}
	}
	a := Run(script(d, cur), des, o)
	sym.MapOrder(true)
	b := Run(script(d, cur), des, o)
	sym.MapOrder(false)
	sym.Assert(a.Code == b.Code, "the exit status depends on the map order")
	sym.Assert(a.Out == b.Out, "the output depends on the map order")
	sym.Cover("twice")
}

func HC17My()   { world(kit.My, 3, c17) }
func HC17Pg()   { world(kit.Pg, 3, c17) }
func HC17Lite() { world(kit.Lite, 3, c17) }
func HC17Ms()   { world(kit.Ms, 3, c17) }
