// Package lex decides the properties of the SQL parser library.
package lex

import (
	"io"
	"strings"

	"github.com/k0kubun/sqldef/schema"
	"github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/zverif/sym"
)

func bytesN(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte()
	}
	return string(b)
}

var pmodes = []sqlparser.ParserMode{sqlparser.ParserModeMysql, sqlparser.ParserModePostgres, sqlparser.ParserModeSQLite3, sqlparser.ParserModeMssql}
var gmodes = []schema.GeneratorMode{schema.GeneratorModeMysql, schema.GeneratorModePostgres, schema.GeneratorModeSQLite3, schema.GeneratorModeMssql}
var modeNames = []string{"mysql", "postgres", "sqlite3", "mssql"}

func anyMode() int {
	m := sym.Choice(4)
	sym.Tag(modeNames[m])
	return m
}

// calm: f terminates within the step bound and does not crash.
func calm(what string, f func()) {
	code, msg := 0, ""
	ok := sym.Within(steps, func() { code, msg = sym.Catch(f) })
	sym.Tag(what)
	sym.Assert(ok, "does not terminate")
	sym.Assert(code == 0, "crash: "+msg)
}

const steps = 3000000

// scanAll runs the tokenizer to the end of the text.
func scanAll(m int, s string) {
	t := sqlparser.NewStringTokenizer(s, pmodes[m])
	for i := 0; ; i++ {
		typ, _ := t.Scan()
		if typ == 0 {
			break
		}
		sym.Assert(i <= len(s), "more tokens than bytes")
	}
}

// HC12Scan: the tokenizer on arbitrary bytes.
func HC12Scan() { c12scan(3) }

// HC12Scan4: the tokenizer on more bytes.
func HC12Scan4() { c12scan(4) }

func c12scan(n int) {
	m := anyMode()
	s := bytesN(n)
	calm("Scan", func() { scanAll(m, s) })
	sym.Cover("end")
}

// openers start a token, a literal or a comment that the arbitrary bytes continue.
var openers = []string{"'", "\"", "`", "[", "/*", "/**", "/*!", "/*!5", "/*!50000", "/*!50000 ", "/*! /*!", "--", "-", "#", "//", "/", "x'", "b'", "x'0", "0x", "1", "1.", "1e", "1e+", ".", ".1", ":", "::", ":a", ":a.", "@@", "@@a", "@@a.", "@", "<", "<=", ">", "!", "|", "&", "->", "?", "_", "'a\\", "'a''", "`a``", "\"a\\", "[a]", "0", "0x1"}

// HC12Open: arbitrary bytes after the start of a token.
func HC12Open() { c12open(2) }

// HC12Open3: more of them.
func HC12Open3() { c12open(3) }

func c12open(n int) {
	m := anyMode()
	i := sym.Choice(len(openers))
	sym.Tag(openers[i])
	s := openers[i] + bytesN(n)
	calm("Scan", func() { scanAll(m, s) })
	sym.Cover("end")
}

// entry calls one of the functions that read text.
func entry(m int, s string) {
	switch sym.Choice(9) {
	case 0:
		calm("ParseStrictDDLWithMode", func() { sqlparser.ParseStrictDDLWithMode(s, pmodes[m]) })
	case 1:
		sym.Assume(m == 0)
		calm("Parse", func() { sqlparser.Parse(s) })
	case 2:
		sym.Assume(m == 0)
		calm("SplitStatement", func() {
			for s != "" {
				_, r, err := sqlparser.SplitStatement(s)
				if err != nil {
					break
				}
				sym.Assert(len(r) < len(s), "the remainder does not get shorter")
				s = r
			}
		})
	case 3:
		sym.Assume(m == 0)
		calm("SplitStatementToPieces", func() { sqlparser.SplitStatementToPieces(s) })
	case 4:
		calm("GenerateIdempotentDDLs", func() { schema.GenerateIdempotentDDLs(gmodes[m], s, "") })
	case 5:
		sym.Assume(m == 0)
		calm("SplitMarginComments", func() { sqlparser.SplitMarginComments(s) })
	case 6:
		sym.Assume(m == 0)
		calm("StripLeadingComments", func() { sqlparser.StripLeadingComments(s) })
	case 7:
		sym.Assume(m == 0)
		calm("Preview", func() { sqlparser.StmtType(sqlparser.Preview(s)) })
	case 8:
		calm("ParseNext", func() {
			t := sqlparser.NewStringTokenizer(s, pmodes[m])
			for i := 0; ; i++ {
				if _, err := sqlparser.ParseNext(t); err == io.EOF {
					break
				}
				sym.Assert(i <= len(s), "ParseNext does not advance")
			}
		})
	}
	sym.Cover("end")
}

// frames put arbitrary bytes where statements and comments begin and end.
var frames = [][2]string{{"", ""}, {"select 1 ", ""}, {"select 1;", ";select 2"}, {"/*", "*/"}, {"/*!", "*/"}, {"select /*", "*/ 1 from t"}, {"select /*!", "*/ from t"}, {"--", "\nselect 1"}, {"create table t (a int ", ")"}, {"create table t (a int);", ""}}

// HC12Frame: arbitrary bytes in these places, in every entry point.
func HC12Frame() { c12frame(1) }

// HC12Frame2: more of them.
func HC12Frame2() { c12frame(2) }

func c12frame(n int) {
	m := anyMode()
	i := sym.Choice(len(frames))
	f := frames[i]
	sym.Tag(f[0])
	entry(m, f[0]+bytesN(n)+f[1])
}

// HC12Cut: a statement cut after any token and continued by an arbitrary byte, with
// or without its rest.
func HC12Cut() { c12cut(60) }

// HC12CutAll: the same for every statement of the corpus.
func HC12CutAll() { c12cut(len(corpus)) }

func c12cut(n int) {
	c := corpus[sym.Choice(n)]
	sym.Tag(modeNames[c.mode])
	t := sqlparser.NewStringTokenizer(c.sql, pmodes[c.mode])
	var ends []int
	for {
		typ, _ := t.Scan()
		if typ == 0 {
			break
		}
		ends = append(ends, t.Position-1)
	}
	p := ends[sym.Choice(len(ends))]
	s := c.sql[:p] + string([]byte{sym.Byte()})
	if sym.Choice(2) == 1 {
		s += c.sql[p:]
	}
	sym.Dump(s)
	calm("ParseStrictDDLWithMode", func() { sqlparser.ParseStrictDDLWithMode(s, pmodes[c.mode]) })
	if strings.HasPrefix(strings.ToLower(c.sql), "create") {
		calm("GenerateIdempotentDDLs", func() { schema.GenerateIdempotentDDLs(gmodes[c.mode], s, "") })
	}
	sym.Cover("end")
}

// HC12Comment: the comment helpers on any comment the parser can hand over.
func HC12Comment() { c12comment(2) }

// HC12Comment3: longer ones.
func HC12Comment3() { c12comment(3) }

func c12comment(n int) {
	var c string
	switch sym.Choice(4) {
	case 0:
		c = "/*" + bytesN(sym.Choice(n+1)) + "*/"
	case 1:
		c = "--" + bytesN(sym.Choice(n))
	case 2:
		c = "#" + bytesN(sym.Choice(n))
	case 3:
		c = "/*vt+" + bytesN(sym.Choice(n)) + "*/"
	}
	calm("ExtractCommentDirectives", func() {
		d := sqlparser.ExtractCommentDirectives(sqlparser.Comments{[]byte(c)})
		d.IsSet("x")
	})
	if strings.HasPrefix(c, "/*") {
		calm("ExtractMysqlComment", func() { sqlparser.ExtractMysqlComment("/*!" + c[2:]) })
	}
	sym.Cover("end")
}

var eof = io.EOF
