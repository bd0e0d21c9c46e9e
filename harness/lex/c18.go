package lex

import (
	"strings"
	"unicode"

	"github.com/k0kubun/sqldef/schema"
	"github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// token is the extent of the quoted text or comment that starts at i, 0 if none does.
// The rules are those of the dialect's manual as far as the tokenizer supports them.
func extent(m int, s string, i int) int {
	quote := func(close byte, escapes bool) int {
		j := i + 1
		for j < len(s) {
			if escapes && s[j] == '\\' {
				j += 2
				continue
			}
			if s[j] == close {
				if j+1 < len(s) && s[j+1] == close {
					j += 2
					continue
				}
				return j + 1 - i
			}
			j++
		}
		return len(s) - i
	}
	line := func() int {
		if k := strings.IndexByte(s[i:], '\n'); k >= 0 {
			return k + 1
		}
		return len(s) - i
	}
	switch c := s[i]; c {
	case '\'':
		return quote('\'', m == 0)
	case '"':
		return quote('"', m == 0)
	case '`':
		if m != 1 {
			return quote('`', false)
		}
	case '[':
		if m == 3 {
			return quote(']', false)
		}
	case '#':
		return line()
	case '-', '/':
		if i+1 < len(s) && s[i+1] == c {
			return line()
		}
		if c == '/' && i+1 < len(s) && s[i+1] == '*' {
			if k := strings.Index(s[i+2:], "*/"); k >= 0 {
				return k + 4
			}
			return len(s) - i
		}
	}
	return 0
}

// split cuts at every semicolon outside quoted texts and comments.
func split(m int, s string) []string {
	var out []string
	begin := 0
	for i := 0; i < len(s); {
		if n := extent(m, s, i); n > 0 {
			i += n
			continue
		}
		if s[i] == ';' {
			out = append(out, s[begin:i])
			begin = i + 1
		}
		i++
	}
	return append(out, s[begin:])
}

// plain excludes texts whose tokens are not what they look like: letters that start a
// literal or a number before a quote or comment, and names with quotes in them.
func plain(s string) {
	for i := 0; i+1 < len(s); i++ {
		a, b := s[i], s[i+1]
		sym.Assume(sym.Not(sym.And(sym.Or(a|32 == 'x', a|32 == 'b'), b == '\'')))
		sym.Assume(sym.Not(sym.And(a == '@', b == '@')))
		sym.Assume(sym.Not(sym.And(sym.Or(a == 'e', a == 'E'), b == '-')))
	}
}

func sameSplit(m int, s string) {
	want := split(m, s)
	got, err := sqlparser.SplitStatementToPieces(s)
	sym.Assert(err == nil, "a script is not split")
	if want[len(want)-1] == "" && len(want) > 0 && len(got) == len(want)-1 {
		want = want[:len(want)-1]
	}
	sym.Assert(len(got) == len(want), "a script is cut into other statements")
	for i := range got {
		sym.Assert(got[i] == want[i], "a script is cut elsewhere")
	}
	first, rest, err := sqlparser.SplitStatement(s)
	sym.Assert(err == nil, "a script is not split")
	want = split(m, s)
	if len(want) == 1 {
		sym.Assert(first == s && rest == "", "the first statement is cut elsewhere")
	} else {
		sym.Assert(first == want[0] && rest == s[len(first)+1:], "the first statement is cut elsewhere")
	}
	sym.Cover("end")
}

// HC18Bytes: any short script.
func HC18Bytes() { c18bytes(3) }

// HC18Bytes4: longer ones.
func HC18Bytes4() { c18bytes(4) }

func c18bytes(n int) {
	s := bytesN(n)
	plain(s)
	sameSplit(0, s)
}

// pieces of scripts: what semicolons can hide in.
var parts = []string{"a", " ", ";", "'", "\"", "`", "\\", "--", "#", "//", "/*", "*/", "/*!", "/*!50000 ", "\n", "-", "/", "''", "\\'", "*", "1", "(", "=", "."}

// HC18Parts: scripts of such pieces.
func HC18Parts() { c18parts(3) }

// HC18Parts4: longer ones.
func HC18Parts4() { c18parts(4) }

func c18parts(n int) {
	s := ""
	for i := 0; i < n; i++ {
		s += parts[sym.Choice(len(parts))]
	}
	s += ";"
	s += string([]byte{sym.Byte()})
	plain(s)
	sameSplit(0, s)
}

// HC18Enclosed: a semicolon and any byte within a quoted text or comment, between
// statements.
func HC18Enclosed() {
	var q string
	switch sym.Choice(4) {
	case 0:
		x, _ := quoted('\'', '\'', true, 2)
		q = string(x)
	case 1:
		x, _ := quoted('"', '"', true, 2)
		q = string(x)
	case 2:
		x, _ := quoted('`', '`', false, 2)
		q = string(x)
	case 3:
		b := bytesN(2)
		sym.Assume(sym.And(b != "*/", sym.And(b[1] != '*', b[0] != '!')))
		q = "/*" + b + "*/"
	}
	pre := []string{"", "a", "a;", "a ;b ", ";"}[sym.Choice(5)]
	post := []string{"", " ", ";", ";b", " c; d", ";;e;"}[sym.Choice(6)]
	s := pre + q + post
	sym.Assume(!strings.HasPrefix(q, "`") || !strings.HasSuffix(q, "``"))
	pieces, err := sqlparser.SplitStatementToPieces(s)
	sym.Assert(err == nil, "a script is not split")
	want := strings.Split(pre+"\x00"+post, ";")
	if want[len(want)-1] == "" {
		want = want[:len(want)-1]
	}
	sym.Assert(len(pieces) == len(want), "a script is cut within a quoted text or comment")
	for i := range want {
		sym.Assert(pieces[i] == strings.Replace(want[i], "\x00", q, 1), "a script is cut elsewhere")
	}
	sym.Cover("end")
}

// HC18DDLs: a schema file is cut at its top-level semicolons in every dialect: a name,
// a default or a comment with semicolons in it.
func HC18DDLs() {
	m := anyMode()
	s := styles[sym.Choice(len(styles))]
	sym.Assume(s.m == m && s.typ == sqlparser.ID)
	name, nv := quoted(s.open, s.close, false, 2)
	sym.Assume(len(nv) > 0)
	lit, lv := quoted('\'', '\'', m == 0, 1)
	ddls := []string{
		"create table t (a varchar(9) default " + string(lit) + ")",
		"create table u (" + string(name) + " int)",
	}
	text := ddls[0] + ";" + []string{"", "\n", "\n-- c ; d\n", "\n--\n"}[sym.Choice(4)] + ddls[1] + []string{"", ";", ";\n"}[sym.Choice(3)]
	sym.Dump(text)
	got, err := schema.GenerateIdempotentDDLs(gmodes[m], text, "")
	sym.Assert(err == nil, "a schema is rejected for a name or value in it")
	sym.Assert(len(got) == 2, "a schema is cut into other statements")
	for i := range got {
		sym.Assert(got[i] == ddls[i], "a schema is cut elsewhere")
	}
	_ = lv
	sym.Cover("end")
}

// spaces of Unicode that are single bytes.
func space(b byte) bool { return unicode.IsSpace(rune(b)) }

// HC18Margin: the comments around a statement and the statement between them.
func HC18Margin() {
	comment := func() (string, string) {
		text, kept := "", ""
		for n := sym.Choice(3); n > 0; n-- {
			c := "/*" + []string{"", " x ", "*", "/", "''", ";"}[sym.Choice(6)] + "*/"
			text += c
			kept += c
			if sp := []string{"", " ", "\n"}[sym.Choice(3)]; n > 1 {
				text += sp
				kept += sp
			}
		}
		return text, kept
	}
	lead, _ := comment()
	trail, _ := comment()
	b := bytesN(1)
	sym.Assume(b[0] < 0x80 && !space(b[0]))
	stmt := "s" + []string{"", " '/*' ", "/**/", "--", "* /"}[sym.Choice(5)] + b
	sym.Assume(!strings.HasSuffix(stmt, "*/"))
	l, t := "", ""
	if lead != "" {
		l = []string{"", " "}[sym.Choice(2)]
	}
	if trail != "" {
		t = []string{"", " "}[sym.Choice(2)]
	}
	text := lead + l + stmt + t + trail
	q, c := sqlparser.SplitMarginComments(text)
	sym.Assert(q == stmt, "the statement between the comments is another")
	sym.Assert(c.Leading == lead+l, "the leading comments are others")
	sym.Assert(c.Trailing == t+trail, "the trailing comments are others")
	sym.Assert(c.Leading+q+c.Trailing == text, "the parts are not the whole")
	sym.Cover("end")
}

// HC18Leading: stripping the comments before a statement leaves the statement.
func HC18Leading() {
	text := ""
	for n := sym.Choice(4); n > 0; n-- {
		text += []string{"/* a */", "/**/", "-- b\n", "--\n", "/* -- */", "-- /*\n"}[sym.Choice(6)]
		text += []string{"", " ", "\n\t"}[sym.Choice(3)]
	}
	b := bytesN(2)
	sym.Assume(b[0] < 0x80 && b[1] < 0x80 && !space(b[0]) && !space(b[1]))
	sym.Assume(b != "/*" && b != "--")
	stmt := b + []string{"", " /* c */", "\n-- d", ";"}[sym.Choice(4)]
	got := sqlparser.StripLeadingComments(text + stmt + []string{"", " "}[sym.Choice(2)])
	sym.Assert(got == stmt, "the statement after the comments is another")
	sym.Cover("end")
}
