import os, sys
exec(open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), 'b1.py')).read().split('BUGS =')[0])

def PARSE(body, imports=''):
    return '''package main

import (
	"fmt"
	"os"

	"github.com/k0kubun/sqldef/sqlparser"
%s)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

var _ = sqlparser.Parse

func main() {
%s}
''' % (imports, body)

BUGS = [
 dict(id='trigger-later-statements', property='C05', file=GEN,
  old='for i := 0; i < len(triggerA.body); i++ {', new='for i := 0; i < len(triggerA.body) && i < 1; i++ {',
  needs='a trigger of several statements whose second statement changes', breaks='a trigger keeps its old body',
  main=PLAN('Mssql', [("CREATE TABLE t (a int, b int);\nCREATE TRIGGER g ON t AFTER INSERT AS INSERT INTO t (a) VALUES (1)\nINSERT INTO t (b) VALUES (3);",
    "CREATE TABLE dbo.t (a int, b int);\nCREATE TRIGGER g ON dbo.t AFTER INSERT AS INSERT INTO t (a) VALUES (1)\nINSERT INTO t (b) VALUES (2);",
    ["CREATE OR ALTER TRIGGER [g] ON [dbo].[t] after insert AS insert into t(a) values (1) insert into t(b) values (3)"])])),
 dict(id='key-second-column-null', property='C03', file=GEN,
  old='''			for _, indexColumn := range index.columns {
				if indexColumn.column == column.name {
					return true
				}
			}
''', new='''			if len(index.columns) > 0 && index.columns[0].column == column.name {
				return true
			}
''', needs='a primary key of two columns, the second without its own NOT NULL', breaks='a column of the primary key is taken for nullable',
  main=PLAN('Postgres', [("CREATE TABLE t (a int, b int, PRIMARY KEY (a, b));", 'CREATE TABLE public.t ("a" integer NOT NULL, "b" integer NOT NULL, PRIMARY KEY ("a", "b"));', [])])),
 dict(id='policy-permissive', property='C03', file=GEN,
  old='if strings.ToLower(policyA.permissive) != strings.ToLower(policyB.permissive) {', new='if (policyA.permissive == "") != (policyB.permissive == "") {',
  needs='a policy that only changes between PERMISSIVE and RESTRICTIVE', breaks='the kind of the policy is not changed',
  main=PLAN('Postgres', [("CREATE TABLE t (a int);\nCREATE POLICY p ON t AS RESTRICTIVE FOR ALL TO public USING (a > 0);",
    'CREATE TABLE public.t ("a" integer);\nCREATE POLICY p ON public.t AS PERMISSIVE FOR ALL TO public USING (a > 0);', ['DROP POLICY "p" ON "public"."t"', "CREATE POLICY p ON t AS RESTRICTIVE FOR ALL TO public USING (a > 0)"])])),
 dict(id='identity-minvalue', property='C03', file=GEN,
  old='''	if sequence.NoMinValue {
		ddl += "NO MINVALUE "
	}
	if sequence.MaxValue != nil {''', new='''	if sequence.NoMinValue {
		ddl += "NO MINVALUE "
	} else if sequence.MaxValue != nil {''',
  needs='an identity column with both NO MINVALUE and MAXVALUE', breaks='the maximum of the sequence is lost',
  main=PLAN('Postgres', [("CREATE TABLE t (a int, b int GENERATED ALWAYS AS IDENTITY (NO MINVALUE MAXVALUE 9));", 'CREATE TABLE public.t ("a" integer);',
    ['ALTER TABLE "public"."t" ADD COLUMN "b" int GENERATED ALWAYS AS IDENTITY (NO MINVALUE MAXVALUE 9)'])])),
 dict(id='mssql-option-off', property='C05', file=GEN,
  old='''					if string(indexOption.value.raw) == "true" {''', new='''					if len(indexOption.value.raw) > 0 {''',
  needs='an index of SQL Server with an option set to OFF', breaks='the option is set to ON',
  main=PLAN('Mssql', [("CREATE TABLE t (a int);\nCREATE TABLE u (a int, INDEX i (a) WITH (PAD_INDEX = OFF));", "CREATE TABLE dbo.t (a int);\nCREATE TABLE dbo.u (a int);",
    ["CREATE CLUSTERED INDEX [i] ON [dbo].[u] ([a]) WITH (pad_index = OFF)"])])),
 dict(id='obsolete-column-case', property='C06', file=GEN,
  old='''func containsString(strs []string, str string) bool {
	for _, s := range strs {
		if s == str {''', new='''func containsString(strs []string, str string) bool {
	for _, s := range strs {
		if s == str || len(s) > 1 && strings.EqualFold(s, str) {''',
  needs='a current column whose name differs from a desired one only in letter case', breaks='the obsolete column is kept',
  main=PLAN('Postgres', [('CREATE TABLE t (aa int);', 'CREATE TABLE public.t ("AA" integer, "aa" integer);', ['ALTER TABLE "public"."t" DROP COLUMN "AA"'])])),
 dict(id='identity-increment', property='C10', file='adapter/mssql/mssql.go',
  old='''				IncrementValue:    *incrementValue,''', new='''				IncrementValue:    *seedValue,''',
  needs='an IDENTITY whose increment differs from its seed', breaks='the export states another increment',
  main=None),
 dict(id='control-in-name', property='C13', file='sqlparser/token.go',
  old='''		default:
			buffer.WriteByte(byte(tkn.lastChar))
		}
		tkn.next()
''', new='''		default:
			if tkn.lastChar >= ' ' {
				buffer.WriteByte(byte(tkn.lastChar))
			}
		}
		tkn.next()
''', needs='a quoted identifier with a control character', breaks='the name loses the character',
  main=PARSE('''	t, err := sqlparser.Parse("select `a\\tb` from t")
	if err != nil {
		fail("%v", err)
	}
	if s := sqlparser.String(t); s != "select `a\\tb` from t" {
		fail("got %q", s)
	}
''')),
 dict(id='comment-of-stars', property='C12', file='sqlparser/comments.go',
  old='''	sql = sql[3 : len(sql)-2]
''', new='''	sql = strings.TrimSpace(sql[3 : len(sql)-2])
	if sql[0] == '!' {
		sql = sql[1:]
	}
''', needs='an empty /*! */ comment', breaks='the parser crashes',
  main=PARSE('''	defer func() {
		if e := recover(); e != nil {
			fail("%v", e)
		}
	}()
	sqlparser.Parse("select /*! */ 1")
''')),
 dict(id='alias-hints', property='C14', file='sqlparser/ast.go',
  old='''	if !node.As.IsEmpty() {
		buf.Myprintf(" as %v", node.As)
	}
	if node.Hints != nil {
''', new='''	if !node.As.IsEmpty() {
		buf.Myprintf(" as %v", node.As)
	} else if node.Hints != nil {
''', needs='a table with both an alias and an index hint', breaks='the hint is not printed',
  main=PARSE('''	t, err := sqlparser.Parse("select a from t as u use index (i)")
	if err != nil {
		fail("%v", err)
	}
	if s := sqlparser.String(t); s != "select a from t as u use index (i)" {
		fail("got %q", s)
	}
''')),
 dict(id='lexical-error-ends', property='C18', file='sqlparser/ast.go',
  old='		} else if tkn == 0 || tkn == eofChar {\n			blobTail', new='		} else if tkn == 0 || tkn == eofChar || tkn == LEX_ERROR {\n			blobTail',
  needs='a statement with a character the lexer does not know', breaks='the statements behind it are lost',
  main=PARSE('''	p, err := sqlparser.SplitStatementToPieces("select $1;select 2")
	if err != nil || len(p) != 2 || p[1] != "select 2" {
		fail("got %q %v", p, err)
	}
''')),
 dict(id='dedup-ignores-case', property='C21', file='sqlparser/normalizer.go',
  old='''		key = "'" + string(node.Val)''', new='''		key = "'" + string(bytes.ToLower(node.Val))''',
  edits=[('sqlparser/normalizer.go', '''		key = "'" + string(node.Val)''', '''		key = "'" + string(bytes.ToLower(node.Val))'''), ('sqlparser/normalizer.go', 'import (\n', 'import (\n\t"bytes"\n')],
  needs='a query with two string literals that differ in letter case', breaks='the two share a bind variable',
  main=PARSE('''	t, err := sqlparser.Parse("select a from t where b = 'x' and c = 'X'")
	if err != nil {
		fail("%v", err)
	}
	sqlparser.Normalize(t, map[string]*querypb.BindVariable{}, "bv")
	if s := sqlparser.String(t); s != "select a from t where b = :bv1 and c = :bv2" {
		fail("got %q", s)
	}
''', '\t"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"\n')),
 dict(id='line-comment-return', property='C22', file='sqlparser/comments.go',
  old='''			index := strings.Index(sql, "\\n")''', new='''			index := strings.IndexAny(sql, "\\r\\n")''',
  needs='a leading line comment with a carriage return in it', breaks='a part of the comment is taken for the statement',
  main=PARSE('''	if k := sqlparser.Preview("-- a\\rselect\\ninsert into t values (1)"); k != sqlparser.StmtInsert {
		fail("an INSERT is taken for %d", k)
	}
''')),
 dict(id='float-list-precision', property='C19', file='sqlparser/dependency/sqltypes/bind_variables.go',
  old="values[i].Value = strconv.AppendFloat(nil, lv, 'g', -1, 64)", new="values[i].Value = strconv.AppendFloat(nil, lv, 'g', 15, 64)",
  needs='a list of floats, one of which needs 16 or 17 digits', breaks='the value changes',
  main=PARSE('''	b, err := sqltypes.BuildBindVariable([]float64{0.1, 0.30000000000000004})
	if err != nil || string(b.Values[1].Value) != "0.30000000000000004" {
		fail("got %v %v", b, err)
	}
''', '\t"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"\n')),
 dict(id='password-space', property='C20', file='adapter/mssql/mssql.go',
  old='''		User:     url.UserPassword(config.User, config.Password),''', new='''		User:     url.UserPassword(config.User, strings.TrimSpace(config.Password)),''',
  needs='a password that ends in a blank', breaks='another password reaches the server',
  main=None),
 dict(id='view-vanished', property='C11', file='adapter/mysql/mysql.go',
  old='''		if err = d.db.QueryRow(query).Scan(&definition); err != nil {
			return nil, err
		}
''', new='''		if err = d.db.QueryRow(query).Scan(&definition); err == sql.ErrNoRows {
			continue
		} else if err != nil {
			return nil, err
		}
''', needs='a view whose definition the server does not return', breaks='the view is left out of the current schema', main=None),
]
BUGS = [b for b in BUGS if b['main']]
