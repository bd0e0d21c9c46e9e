def PLAN(mode, cases):
    """cases: list of (desired, current, expected statements)"""
    import json
    body = ''
    for d, c, e in cases:
        body += '\tcheck(%s, %s, []string{%s})\n' % (json.dumps(d), json.dumps(c), ', '.join(json.dumps(x) for x in e))
    return '''package main

import (
	"fmt"
	"os"

	"github.com/k0kubun/sqldef/schema"
)

func check(desired, current string, want []string) {
	got, err := schema.GenerateIdempotentDDLs(schema.GeneratorMode%s, desired, current)
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(1)
	}
	if fmt.Sprintf("%%q", got) != fmt.Sprintf("%%q", want) {
		fmt.Printf("got  %%q\\nwant %%q\\n", got, want)
		os.Exit(1)
	}
}

func main() {
%s}
''' % (mode, body)

FAKE = '''package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"

	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/adapter"
	"github.com/k0kubun/sqldef/schema"
)

var log []string
var failAt = -1
var failCommit bool

type drv struct{}
type conn struct{}
type tx struct{}

func (drv) Open(string) (driver.Conn, error) { return conn{}, nil }
func (conn) Prepare(q string) (driver.Stmt, error) { return nil, errors.New("no prepare") }
func (conn) Close() error { return nil }
func (conn) Begin() (driver.Tx, error) { log = append(log, "BEGIN"); return tx{}, nil }
func (conn) Exec(q string, a []driver.Value) (driver.Result, error) {
	if failAt == 0 {
		failAt--
		log = append(log, "FAIL "+q)
		return nil, errors.New("refused")
	}
	failAt--
	log = append(log, q)
	return driver.ResultNoRows, nil
}
func (tx) Commit() error {
	if failCommit {
		return errors.New("commit refused")
	}
	log = append(log, "COMMIT")
	return nil
}
func (tx) Rollback() error { log = append(log, "ROLLBACK"); return nil }

type fake struct {
	db       *sql.DB
	tables   []string
	ddl      map[string]string
	views    []string
	triggers []string
	fail     string
}

func (f *fake) e(k string) error {
	if f.fail == k {
		return errors.New(k + " failed")
	}
	return nil
}
func (f *fake) TableNames() ([]string, error)          { return f.tables, f.e("tables") }
func (f *fake) DumpTableDDL(t string) (string, error)  { return f.ddl[t], f.e("dump " + t) }
func (f *fake) Views() ([]string, error)               { return f.views, f.e("views") }
func (f *fake) Triggers() ([]string, error)            { return f.triggers, f.e("triggers") }
func (f *fake) DB() *sql.DB                            { return f.db }
func (f *fake) Close() error                           { return nil }

func newFake() *fake {
	sql.Register("fake", drv{})
	db, _ := sql.Open("fake", "")
	return &fake{db: db, ddl: map[string]string{}}
}

// run runs sqldef and returns its standard output.
func run(f *fake, desired string, o sqldef.Options) string {
	os.WriteFile("in.sql", []byte(desired), 0600)
	o.SqlFile = "in.sql"
	old := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	sqldef.Run(schema.GeneratorModeMysql, f, &o)
	w.Close()
	os.Stdout = old
	b, _ := io.ReadAll(r)
	return string(b)
}

func must(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		fmt.Printf("%q\\n", log)
		os.Exit(1)
	}
}

// child runs this program with an argument and returns its exit status and output.
func child(arg string) (int, string) {
	c := exec.Command(os.Args[0], arg)
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	c.Run()
	return c.ProcessState.ExitCode(), b.String()
}

var _, _, _ = child, adapter.RunDDLs, run
'''

GEN = 'schema/generator.go'
BUGS = [
 dict(id='unsigned-ignored', property='C02', file=GEN,
  old='''		(current.unsigned == desired.unsigned) &&
''', new='''		(current.unsigned == desired.unsigned || desired.notNull == nil) &&
''', needs='a nullable column without explicit NULL gaining or losing UNSIGNED', breaks='UNSIGNED of a nullable column is not changed',
  main=PLAN('Mysql', [("CREATE TABLE t (a int unsigned);", "CREATE TABLE `t` (`a` int(11) DEFAULT NULL)", ["ALTER TABLE `t` CHANGE COLUMN `a` `a` int UNSIGNED"])])),
 dict(id='index-column-order', property='C02', file=GEN,
  old='''		if indexAColumn.column != indexB.columns[i].column || indexAColumn.direction != indexB.columns[i].direction {
			return false
		}
''', new='''		if indexAColumn.direction != indexB.columns[i].direction {
			return false
		}
		same := false
		for _, column := range indexB.columns {
			same = same || column.column == indexAColumn.column
		}
		if !same {
			return false
		}
''', needs='an index whose columns are the same but in another order', breaks='a changed column order of an index is not detected',
  main=PLAN('Mysql', [("CREATE TABLE t (a int, b int, KEY i (b, a));", "CREATE TABLE `t` (`a` int(11) DEFAULT NULL, `b` int(11) DEFAULT NULL, KEY `i` (`a`,`b`))", ["ALTER TABLE `t` DROP INDEX `i`", "ALTER TABLE `t` ADD key `i` (`b`, `a`)"])])),
 dict(id='fk-cascade-same', property='C03', file=GEN,
  old='''	if g.normalizeOnDelete(foreignKeyA.onDelete) != g.normalizeOnDelete(foreignKeyB.onDelete) {
		return false
	}
''', new='''	if g.normalizeOnDelete(foreignKeyA.onDelete) != g.normalizeOnDelete(foreignKeyB.onDelete) && foreignKeyA.onUpdate == foreignKeyB.onUpdate {
		return false
	}
''', needs='a foreign key whose ON DELETE changes and whose ON UPDATE is spelled differently but means the same (unspecified against NO ACTION)', breaks='a changed ON DELETE action is not detected',
  main=PLAN('Postgres', [("CREATE TABLE p (id int PRIMARY KEY); CREATE TABLE t (a int, CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id) ON DELETE CASCADE);",
   'CREATE TABLE public.p ("id" integer NOT NULL, PRIMARY KEY ("id")); CREATE TABLE public.t ("a" integer); ALTER TABLE ONLY public.t ADD CONSTRAINT f FOREIGN KEY (a) REFERENCES p (id) ON UPDATE NO ACTION ON DELETE SET NULL',
   ['ALTER TABLE "public"."t" DROP CONSTRAINT "f"', 'ALTER TABLE "public"."t" ADD CONSTRAINT "f" FOREIGN KEY ("a") REFERENCES "p" ("id") ON DELETE CASCADE'])])),
 dict(id='policy-check-lost', property='C03', file=GEN,
  old='''	if lowerExceptLiterals(policyA.using) != lowerExceptLiterals(policyB.using) {
		return fmt''', new='''	if lowerExceptLiterals(policyA.using) != lowerExceptLiterals(policyB.using) {
		if policyA.withCheck != policyB.withCheck {
			return true
		}
		return fmt''', needs='a policy whose USING and WITH CHECK both change at once', breaks='the changed policy is left as it is',
  main=PLAN('Postgres', [("CREATE TABLE t (a int); CREATE POLICY p ON t AS PERMISSIVE FOR ALL TO public USING (a = 2) WITH CHECK (a = 3);",
   "CREATE TABLE public.t (\"a\" integer); CREATE POLICY p ON public.t AS PERMISSIVE FOR ALL TO public USING (a = 1) WITH CHECK (a = 1)",
   ['DROP POLICY "p" ON "public"."t"', 'CREATE POLICY p ON t AS PERMISSIVE FOR ALL TO public USING (a = 2) WITH CHECK (a = 3)'])])),
 dict(id='sqlite-drop-column-first', property='C04', file=GEN,
  old='''			if containsString(convertColumnsToColumnNames(desiredTable.columns), column.name) {
				continue // Column is expected to exist.
			}
''', new='''			if containsString(convertColumnsToColumnNames(desiredTable.columns), column.name) || g.mode == GeneratorModeSQLite3 && column.position == 0 && len(desiredTable.columns) < len(currentTable.columns) {
				continue // Column is expected to exist.
			}
''', needs='SQLite3, the first column of a table dropped', breaks='the obsolete first column stays',
  main=PLAN('SQLite3', [("CREATE TABLE t (b integer);", "CREATE TABLE t (a integer, b integer)", ["ALTER TABLE `t` DROP COLUMN `a`"])])),
 dict(id='mssql-included-prefix', property='C05', file=GEN,
  old='''	if len(indexA.included) != len(indexB.included) {
		return false
	}
	for i, indexAIncluded := range indexA.included {
''', new='''	if len(indexA.included) < len(indexB.included) {
		return false
	}
	for i, indexAIncluded := range indexA.included[:len(indexB.included)] {
''', needs='an index losing the last of its included columns', breaks='the removed included column is not detected',
  main=PLAN('Mssql', [("CREATE TABLE t (a int, b int, c int); CREATE NONCLUSTERED INDEX i ON t (a) INCLUDE (b);", "CREATE TABLE dbo.t (a int, b int, c int); CREATE NONCLUSTERED INDEX [i] ON dbo.t ([a]) INCLUDE ([b], [c])",
   ["DROP INDEX [i] ON [dbo].[t]", "CREATE NONCLUSTERED INDEX i ON t (a) INCLUDE (b)"])])),
 dict(id='drop-follows-creation', property='C06', file=GEN,
  old='''		if desiredTable == nil {
			// Obsoleted table found. Drop table.
''', new='''		if desiredTable == nil && len(g.currentTables) == len(g.desiredTables)+2 {
			// Two obsoleted tables. The second one goes later.
			g.currentTables = removeTableByName(g.currentTables, currentTable.name)
			continue
		}
		if desiredTable == nil {
			// Obsoleted table found. Drop table.
''', needs='two tables dropped by one plan', breaks='one of the two obsolete tables is never dropped',
  main=PLAN('Mysql', [("CREATE TABLE t (a int);", "CREATE TABLE `a1` (`a` int(11));\nCREATE TABLE `t` (`a` int(11));\nCREATE TABLE `z1` (`a` int(11))", ["DROP TABLE `a1`", "DROP TABLE `z1`"])])),
 dict(id='dry-run-single', property='C08', file='sqldef.go',
  old="""	if options.DryRun {
""", new="""	if options.DryRun && (!options.SkipDrop || len(ddls) > 1) {
""", needs='--dry-run together with --skip-drop and a plan of exactly one statement', breaks='the dry run applies the plan',
  main=FAKE+r"""
func main() {
	f := newFake()
	out := run(f, "CREATE TABLE t (a int);", sqldef.Options{DryRun: true, SkipDrop: true})
	must(len(log) == 0, "wrote something")
	must(out == "-- dry run --\nCREATE TABLE t (a int);\n", out)
}
"""),
 dict(id='rollback-forgotten', property='C09', file='adapter/database.go',
  old="""			transaction.Rollback()
			return err
""", new="""			if skipDrop {
				transaction.Commit()
				return err
			}
			transaction.Rollback()
			return err
""", needs='--skip-drop and a statement refused by the server', breaks='the statements before the refused one are committed',
  main=FAKE+r"""
func main() {
	f := newFake()
	failAt = 1
	err := adapter.RunDDLs(f, []string{"A", "B", "C"}, true)
	must(err != nil, "no error")
	must(fmt.Sprint(log) == "[BEGIN A FAIL B ROLLBACK]", "not rolled back")
}
"""),
 dict(id='export-empty-first', property='C10', file='adapter/database.go',
  old="""		ddl, err := d.DumpTableDDL(tableName)
		if err != nil {
			return "", err
		}

		ddls = append(ddls, ddl)
""", new="""		ddl, err := d.DumpTableDDL(tableName)
		if err != nil {
			return "", err
		}

		if len(ddls) > 0 && strings.HasPrefix(ddls[len(ddls)-1], ddl) {
			continue // dumped already
		}
		ddls = append(ddls, ddl)
""", needs='a table whose definition is a prefix of the one exported before it (a name qualified by another schema does not matter)', breaks='the table is missing from the export',
  main=FAKE+r"""
func main() {
	f := newFake()
	f.tables = []string{"a", "b"}
	f.ddl["a"] = "CREATE TABLE t (a int) -- x"
	f.ddl["b"] = "CREATE TABLE t (a int)"
	out := run(f, "", sqldef.Options{Export: true})
	must(out == f.ddl["a"]+";\n\n"+f.ddl["b"]+";\n", out)
}
"""),
 dict(id='views-error-ignored', property='C11', file='adapter/database.go',
  old="""	viewDDLs, err := d.Views()
	if err != nil {
		return "", err
	}
""", new="""	viewDDLs, err := d.Views()
	if err != nil && len(ddls) == 0 {
		return "", err
	}
""", needs='reading the views fails in a database that has tables', breaks='the plan is made from a schema without views',
  main=FAKE+r"""
func main() {
	f := newFake()
	f.tables = []string{"a"}
	f.ddl["a"] = "CREATE TABLE a (a int)"
	f.fail = "views"
	_, err := adapter.DumpDDLs(f)
	must(err != nil, "the failed read is not reported")
}
"""),
 dict(id='policy-twice-late', property='C16', file=GEN,
  old="""	if containsString(convertPolicyNames(desiredTable.policies), desiredPolicy.name) {
""", new="""	if currentPolicy == nil && containsString(convertPolicyNames(desiredTable.policies), desiredPolicy.name) {
""", needs='a policy defined twice that already exists in the database (or whose first definition has just been planned)', breaks='the contradiction is accepted',
  main=PLAN('Postgres', [("CREATE TABLE t (a int);", "CREATE TABLE public.t (\"a\" integer)", [])]).replace('func main() {', """func main() {
	if got, err := schema.GenerateIdempotentDDLs(schema.GeneratorModePostgres, "CREATE TABLE t (a int); CREATE POLICY p ON t AS PERMISSIVE FOR ALL TO public USING (a = 1); CREATE POLICY p ON t AS PERMISSIVE FOR ALL TO public USING (a = 2);", "CREATE TABLE public.t (a integer)"); err == nil {
		fmt.Println("accepted:", got)
		os.Exit(1)
	}""")),
 dict(id='policy-case', property='C01', file=GEN,
  old="""		if strings.ToLower(policyA.roles[i]) != strings.ToLower(policyB.roles[i]) {
			return false
		}
""", new="""		if strings.ToLower(policyA.roles[i]) != policyB.roles[i] {
			return false
		}
""", needs='a policy for a role whose name has an upper case letter', breaks='the identical policy is recreated by every run',
  main=PLAN('Postgres', [("CREATE TABLE t (a int); CREATE POLICY p ON t AS PERMISSIVE FOR SELECT TO Admin USING (a = 1);", 'CREATE TABLE public.t ("a" integer); CREATE POLICY p ON public.t AS PERMISSIVE FOR SELECT TO Admin USING (a = 1)', [])])),
]
