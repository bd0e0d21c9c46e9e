package ddl

import (
	"strings"

	"github.com/k0kubun/sqldef/schema"
	corpus "github.com/k0kubun/sqldef/zverif/lex"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// fillAs spells every name x as p+x.
func fillAs(m int, close byte, s, p, marker string, v []byte) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '@' && s[i] != '$' {
			out += s[i : i+1]
			continue
		}
		x := s[i : i+2]
		i++
		b := []byte(p + plainText(x))
		if x == marker {
			b = v
		}
		if x[0] == '@' {
			out += quoteName(m, close, b)
		} else {
			out += quoteValue(m, b)
		}
	}
	return out
}

func none(m int, des, cur string) {
	got, err := schema.GenerateIdempotentDDLs(gmodes[m], des, cur)
	if err != nil {
		sym.Assume(strings.HasPrefix(err.Error(), "found syntax error")) // ALTER TABLE ADD INDEX is read in desired schemas only
		sym.Fail("a template cannot be parsed")
	}
	sym.Dump(strings.Join(got, ";\n"))
	sym.Assert(len(got) == 0, "a schema differs from itself")
	sym.Cover("end")
}

// pick is a schema of the templates.
func pick(m int) (int, string) {
	lo, hi := 0, len(tmpls)
	if m >= 0 {
		for tmpls[lo].m != m {
			lo++
		}
		for hi > lo && tmpls[hi-1].m != m {
			hi--
		}
	}
	p := tmpls[lo+sym.Choice(hi-lo)]
	if sym.Choice(2) == 1 {
		return p.m, p.cur
	}
	return p.m, p.des
}

// HC01Names: a schema with arbitrary bytes in one name or value is like itself.
func HC01Names() { c01names(1) }

// HC01Names2, HC01Names3: longer ones.
func HC01Names2() { c01names(2) }
func HC01Names3() { c01names(3) }

func c01names(n int) {
	m, s := pick(-1)
	sym.Tag(modeNames[m])
	sym.Tag(s)
	ls := letters(s)
	x := ls[sym.Choice(len(ls))]
	sym.Tag(x)
	closer := closers[m][sym.Choice(len(closers[m]))]
	var v []byte
	for j := 0; j < n; j++ {
		c := sym.Byte()
		sym.Assume(c != 0)
		v = append(v, c)
	}
	t := fill(m, closer, s, x, v)
	none(m, t, t)
}

// HC01Two: schemas of two parts, also in the other order.
func HC01Two() {
	m, s := pick(-1)
	_, u := pick(m)
	sym.Tag(modeNames[m])
	sym.Tag(s)
	sym.Tag(u)
	c := closers[m][0]
	z := string([]byte{sym.ByteRange('a', 'z'), sym.ByteRange('a', 'z')})
	a, b := fill(m, c, s, "", nil), fillAs(m, c, u, z, "", nil)
	none(m, a+";\n"+b, a+";\n"+b)
	none(m, b+";\n"+a, a+";\n"+b)
}

// recase gives the letters outside quotes another case, blanks another form.
func recase(s string, upper, wide bool) string {
	out := []byte{}
	var q byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case q != 0:
			if c == q {
				q = 0
			}
		case c == '[':
			q = ']'
		case c == '\'' || c == '"' || c == '`':
			q = c
		case upper && c >= 'a' && c <= 'z':
			c -= 32
		case wide && c == ' ':
			out = append(out, '\n')
		case wide && (c == ',' || c == ')'):
			out = append(out, ' ')
		}
		out = append(out, c)
	}
	return string(out)
}

// HC01Case: the letter case of keywords and the layout do not matter.
func HC01Case() {
	m, s := pick(-1)
	sym.Tag(modeNames[m])
	sym.Tag(s)
	z := string([]byte{sym.ByteRange('a', 'z'), sym.ByteRange('a', 'z')})
	t := fillAs(m, closers[m][0], s, z, "", nil)
	u := t
	switch sym.Choice(3) {
	case 0:
		sym.Tag("upper case")
		u = recase(t, true, false)
	case 1:
		sym.Tag("layout")
		u = recase(t, false, true)
	case 2:
		sym.Tag("semicolon")
		u = t + " ;\n"
	}
	none(m, u, t)
	none(m, t, u)
}

// HC01Corpus: statements of the test suite.
func HC01Corpus() {
	m, s := corpus.Statement(sym.Choice(corpus.Statements()))
	sym.Tag(s)
	got, err := schema.GenerateIdempotentDDLs(gmodes[m], s, s)
	sym.Assume(!strings.Contains(s, "full_name varchar key") && !strings.Contains(s, "UNIQUE\n") && !strings.Contains(s, "PRIMARY KEY\n")) // no export has keys inside columns
	sym.Assume(err == nil)                                                                                                                 // no table, or not a definition
	sym.Assert(len(got) == 0, "a schema differs from itself")
	sym.Cover("end")
}
