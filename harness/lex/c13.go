package lex

import (
	"bytes"
	"strings"

	"github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// quoted is a quoted text of up to n units in the dialect's rules and the bytes it
// denotes.
func quoted(open, close byte, escapes bool, n int) (src, val []byte) {
	src = []byte{open}
	for i := 0; i < n; i++ {
		k := 2
		if escapes {
			k = 4
		}
		switch sym.Choice(k) {
		case 0:
			c := sym.Byte()
			sym.Assume(sym.And(c != close, sym.Not(sym.And(escapes, c == '\\'))))
			src = append(src, c)
			val = append(val, c)
		case 1:
			src = append(src, close, close)
			val = append(val, close)
		case 2:
			e := sym.ByteIn("0bnrtZ%_")
			src = append(src, '\\', e)
			switch e {
			case '0':
				val = append(val, 0)
			case 'b':
				val = append(val, 8)
			case 'n':
				val = append(val, 10)
			case 'r':
				val = append(val, 13)
			case 't':
				val = append(val, 9)
			case 'Z':
				val = append(val, 26)
			default: // kept for patterns
				val = append(val, '\\', e)
			}
		case 3:
			e := sym.Byte()
			for _, x := range []byte("0bnrtZ%_") {
				sym.Assume(e != x)
			}
			src = append(src, '\\', e)
			val = append(val, e)
		}
	}
	return append(src, close), val
}

type style struct {
	m           int
	open, close byte
	escapes     bool
	typ         int
}

var styles = []style{
	{0, '\'', '\'', true, sqlparser.STRING}, {0, '"', '"', true, sqlparser.STRING}, {0, '`', '`', false, sqlparser.ID},
	{1, '\'', '\'', false, sqlparser.STRING}, {1, '"', '"', false, sqlparser.ID},
	{2, '\'', '\'', false, sqlparser.STRING}, {2, '"', '"', false, sqlparser.ID}, {2, '`', '`', false, sqlparser.ID},
	{3, '\'', '\'', false, sqlparser.STRING}, {3, '"', '"', false, sqlparser.ID}, {3, '[', ']', false, sqlparser.ID},
}

// anyQuoted is a quoted text in any style of any dialect.
func anyQuoted(n int) (s style, src, val []byte) {
	s = styles[sym.Choice(len(styles))]
	sym.Tag(modeNames[s.m])
	sym.Tag("quoted by " + string([]byte{s.open}))
	src, val = quoted(s.open, s.close, s.escapes, n)
	if s.typ == sqlparser.ID {
		sym.Assume(len(val) > 0)
	}
	return
}

// sameRest: what the tokenizer reads next is what it reads from the rest alone.
func sameRest(t *sqlparser.Tokenizer, m int, rest string) {
	u := sqlparser.NewStringTokenizer(rest, pmodes[m])
	for {
		a, x := t.Scan()
		b, y := u.Scan()
		sym.Assert(a == b, "what follows is read differently")
		if a == 0 {
			return
		}
		sym.Assert(bytes.Equal(x, y), "what follows is read differently")
	}
}

// HC13Scan: a quoted text between other text.
func HC13Scan() { c13scan(2, 2) }

func c13scan(n, after int) {
	n = sym.Choice(n + 1)
	s, src, val := anyQuoted(n)
	rest := []byte(nil)
	for i := 0; i < after; i++ {
		rest = append(rest, sym.Byte())
	}
	sym.Assume(rest[0] != s.close && rest[0] != 0)
	pre := []string{"", "a ", "=", "(", "1 "}[sym.Choice(5)]
	text := pre + string(src) + string(rest)
	t := sqlparser.NewStringTokenizer(text, pmodes[s.m])
	if pre != "" {
		t.Scan()
	}
	typ, got := t.Scan()
	sym.Assert(typ == s.typ, "a quoted text is not read as one token")
	sym.Assert(bytes.Equal(got, val), "a quoted text is read as other bytes")
	sameRest(t, s.m, string(rest))
	sym.Cover("end")
}

// HC13Long: the tokenizer copies longer runs of a literal at once.
func HC13Long() {
	s := styles[sym.Choice(len(styles))]
	sym.Tag(modeNames[s.m])
	src, val := []byte{s.open}, []byte(nil)
	for i := 0; i < 3; i++ {
		if sym.Choice(2) == 0 {
			src = append(src, "abc"...)
			val = append(val, "abc"...)
			c := sym.Byte()
			sym.Assume(sym.And(c != s.close, sym.Not(sym.And(s.escapes, c == '\\'))))
			src = append(src, c)
			val = append(val, c)
		} else if s.escapes && sym.Choice(2) == 0 {
			src = append(src, '\\', s.close)
			val = append(val, s.close)
		} else {
			src = append(src, s.close, s.close)
			val = append(val, s.close)
		}
	}
	src = append(src, s.close)
	rest := " " + bytesN(1) + "x"
	t := sqlparser.NewStringTokenizer(string(src)+rest, pmodes[s.m])
	typ, got := t.Scan()
	sym.Assert(typ == s.typ, "a quoted text is not read as one token")
	sym.Assert(bytes.Equal(got, val), "a quoted text is read as other bytes")
	sym.Assert(t.Position == len(src)+1, "the position after a quoted text is wrong")
	sameRest(t, s.m, rest)
	sym.Cover("end")
}

// chunks hands out a text in pieces of 1 to 3 bytes.
type chunks struct {
	s  string
	at int
}

func (c *chunks) Read(p []byte) (int, error) {
	if c.at == len(c.s) {
		return 0, eof
	}
	n := 1 + sym.Choice(3)
	if n > len(c.s)-c.at {
		n = len(c.s) - c.at
	}
	copy(p, c.s[c.at:c.at+n])
	c.at += n
	return n, nil
}

// HC13Stream: a text read from a stream has the same tokens as the text in memory.
func HC13Stream() {
	q := []byte("'\"`")[sym.Choice(3)]
	sym.Tag("quoted by " + string([]byte{q}))
	src, _ := quoted(q, q, q != '`', 2)
	rest := bytesN(1)
	sym.Assume(rest[0] != q && rest[0] != 0)
	text := "a" + string(src) + rest
	t := sqlparser.NewTokenizer(&chunks{s: text})
	u := sqlparser.NewStringTokenizer(text, sqlparser.ParserModeMysql)
	for {
		a, x := t.Scan()
		b, y := u.Scan()
		sym.Assert(a == b && bytes.Equal(x, y), "a stream is read differently")
		sym.Assert(t.Position == u.Position, "a stream is at another position")
		if a == 0 {
			break
		}
	}
	sym.Cover("end")
}

// HC13Parse: names and a value in a statement.
func HC13Parse() {
	m := anyMode()
	var q style
	k := sym.Choice(2)
	n := 0
	for _, s := range styles {
		if s.m == m && s.typ == sqlparser.ID {
			if n == k {
				q = s
			}
			n++
		}
	}
	sym.Assume(q.open != 0)
	sym.Tag("quoted by " + string([]byte{q.open}))
	name, nv := quoted(q.open, q.close, false, 1)
	lit, lv := quoted('\'', '\'', m == 0, 1)
	sql := "create table " + string(name) + " (" + string(name) + " varchar(9) default " + string(lit) + " not null, b int)"
	sym.Dump(sql)
	st, err := sqlparser.ParseStrictDDLWithMode(sql, pmodes[m])
	sym.Assert(err == nil, "a statement is rejected for a name or value in it")
	d, ok := st.(*sqlparser.DDL)
	sym.Assert(ok && d.TableSpec != nil && len(d.TableSpec.Columns) == 2, "a name or value changes the statement")
	c := d.TableSpec.Columns[0]
	sym.Assert(d.NewName.Name.String() == string(nv), "a table name is read as other bytes")
	sym.Assert(c.Name.String() == string(nv), "a column name is read as other bytes")
	sym.Assert(c.Type.Default != nil && c.Type.Default.Value != nil, "a default is lost")
	sym.Assert(bytes.Equal(c.Type.Default.Value.Val, lv), "a default is read as other bytes")
	sym.Assert(c.Type.NotNull != nil && bool(*c.Type.NotNull), "what follows a value is lost")
	sym.Cover("end")
}

// HC13Hex: hexadecimal and bit literals.
func HC13Hex() {
	m := anyMode()
	var src string
	var want int
	var body []byte
	switch sym.Choice(3) {
	case 0:
		for n := 2 * (1 + sym.Choice(2)); n > 0; n-- {
			body = append(body, sym.ByteIn("0123456789abcdefABCDEF"))
		}
		src, want = []string{"x'", "X'"}[sym.Choice(2)]+string(body)+"'", sqlparser.HEX
	case 1:
		for n := 1 + sym.Choice(3); n > 0; n-- {
			body = append(body, sym.ByteIn("01"))
		}
		src, want = []string{"b'", "B'"}[sym.Choice(2)]+string(body)+"'", sqlparser.BIT_LITERAL
	case 2:
		body = []byte("0x")
		for n := 1 + sym.Choice(3); n > 0; n-- {
			body = append(body, sym.ByteIn("0123456789abcdefABCDEF"))
		}
		src, want = string(body), sqlparser.HEXNUM
	}
	rest := []string{"", " ", ")", ",", ";"}[sym.Choice(5)] + bytesN(1)
	sym.Assume(len(rest) > 1 || (rest[0] != 0 && rest[0] != '\''))
	if len(rest) == 1 && want == sqlparser.HEXNUM {
		sym.Assume(false)
	}
	t := sqlparser.NewStringTokenizer(src+rest, pmodes[m])
	typ, got := t.Scan()
	sym.Assert(typ == want, "a hexadecimal or bit literal is not read as one token")
	sym.Assert(bytes.Equal(got, body), "a hexadecimal or bit literal is read as other digits")
	sameRest(t, m, rest)
	sym.Cover("end")
}

// HC13Encode: values and names the library formats are read back.
func HC13Encode() { c13encode(2) }

// HC13Encode3: longer ones.
func HC13Encode3() { c13encode(3) }

func c13encode(n int) {
	b := []byte(bytesN(sym.Choice(n + 1)))
	var buf bytes.Buffer
	want := sqlparser.STRING
	switch sym.Choice(5) {
	case 0:
		sym.Tag("Value.EncodeSQL")
		ty := []int{0, 1, 2, 3}[sym.Choice(4)]
		switch ty {
		case 0:
			sqltypes.NewVarBinary(string(b)).EncodeSQL(&buf)
		case 1:
			sqltypes.NewVarChar(string(b)).EncodeSQL(&buf)
		case 2:
			sqltypes.MakeTrusted(sqltypes.Blob, b).EncodeSQL(&buf)
		case 3:
			v, err := sqltypes.NewValue(sqltypes.Timestamp, b)
			sym.Assert(err == nil, "a quoted value is rejected")
			v.EncodeSQL(&buf)
		}
	case 1:
		sym.Tag("StrVal")
		buf.WriteString(sqlparser.String(sqlparser.NewStrVal(b)))
	case 2:
		sym.Tag("ColIdent")
		sym.Assume(len(b) > 0)
		buf.WriteString(sqlparser.String(sqlparser.NewColIdent(string(b))))
		want = sqlparser.ID
	case 3:
		sym.Tag("TableIdent")
		sym.Assume(len(b) > 0)
		buf.WriteString(sqlparser.String(sqlparser.NewTableIdent(string(b))))
		want = sqlparser.ID
	case 4:
		sym.Tag("Backtick")
		sym.Assume(len(b) > 0)
		buf.WriteString(sqlparser.Backtick(string(b)))
		want = sqlparser.ID
	}
	rest := []string{"", " x", ",", ")"}[sym.Choice(4)]
	t := sqlparser.NewStringTokenizer(buf.String()+rest, sqlparser.ParserModeMysql)
	typ, got := t.Scan()
	sym.Assert(typ == want, "a formatted value or name is not read as one token")
	sym.Assert(bytes.Equal(got, b), "a formatted value or name is read as other bytes")
	sameRest(t, 0, rest)
	sym.Cover("end")
}

// HC13Word: names that are keywords or begin like other tokens.
func HC13Word() {
	b := make([]byte, 1+sym.Choice(5))
	for i := range b {
		b[i] = sym.ByteIn("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_@019")
	}
	// This name is always read in lower case.
	sym.Assume(!strings.EqualFold(string(b), "dual"))
	s := sqlparser.String(sqlparser.NewColIdent(string(b)))
	t := sqlparser.NewStringTokenizer(s+" x", sqlparser.ParserModeMysql)
	typ, got := t.Scan()
	sym.Assert(typ == sqlparser.ID, "a formatted name is not read as one token")
	sym.Assert(bytes.Equal(got, b), "a formatted name is read as other bytes")
	sameRest(t, 0, " x")
	sym.Cover("end")
}
