package e2e

import (
	"database/sql"
	"fmt"
	"strings"

	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// stub reports definitions of arbitrary text.
type stub struct {
	names        []string
	tables       map[string]string
	views, trigs []string
	db           *sql.DB
}

func (s *stub) TableNames() ([]string, error) { return s.names, nil }
func (s *stub) DumpTableDDL(t string) (string, error) {
	d, ok := s.tables[t]
	if !ok {
		return "", fmt.Errorf("no such table")
	}
	return d, nil
}
func (s *stub) Views() ([]string, error)    { return s.views, nil }
func (s *stub) Triggers() ([]string, error) { return s.trigs, nil }
func (s *stub) DB() *sql.DB                 { return s.db }
func (s *stub) Close() error                { return nil }

// definition is an arbitrary text; it may be equal to another, or begin with it.
func definition() string {
	b := []byte{sym.ByteIn("ab%")}
	n := sym.Choice(3)
	for i := 0; i < n; i++ {
		c := sym.Byte()
		sym.Assume(c != 0)
		b = append(b, c)
	}
	return string(append(b, ')'))
}

// HC10Stub: an export is the definitions the database reports, each once, in order,
// each ended by a semicolon; whatever their text.
func HC10Stub() {
	s := &stub{tables: map[string]string{}}
	var all []string
	n, v, t := sym.Choice(3), sym.Choice(2), sym.Choice(2)
	for i := 0; i < n; i++ {
		d := definition()
		name := "t" + string([]byte{byte('1' + i)})
		s.names = append(s.names, name)
		s.tables[name] = d
		all = append(all, d)
	}
	for i := 0; i < v; i++ {
		s.views = append(s.views, definition())
	}
	for i := 0; i < t; i++ {
		s.trigs = append(s.trigs, definition())
	}
	all = append(append(all, s.views...), s.trigs...)
	sym.Assume(len(all) > 0)
	a, err := Open(kit.My)
	sym.Assume(err == nil)
	s.db = a.DB()
	o := &sqldef.Options{Export: true, DryRun: sym.Choice(2) == 1, SkipDrop: sym.Choice(2) == 1}
	sym.Stdout()
	code, msg := sym.Catch(func() { sqldef.Run(mode(kit.My), s, o) })
	out := sym.Stdout()
	sym.Dump(msg + out)
	sym.Assert(code == 0, "the export fails")
	for i, d := range all {
		sym.Assert(strings.HasPrefix(out, d), "a definition is missing, altered or out of order")
		out = out[len(d):]
		sym.Assert(strings.HasPrefix(out, ";\n"), "a definition does not end a statement")
		out = out[1:]
		if i+1 < len(all) {
			for len(out) > 0 && (out[0] == '\n' || out[0] == ' ') {
				out = out[1:]
			}
		}
	}
	sym.Assert(strings.Trim(out, "\n ") == "", "an export prints more than the definitions")
	sym.Cover("export")
}

// HC08Names: names and values of any characters are printed and executed alike.
func HC08Names() {
	d := dialect()
	b := []byte("x..x")
	b[1], b[2] = sym.ByteIn("%sd!v\\ -x{"), sym.ByteIn("%sd!v\\ -x{")
	n := string(b)
	q := kit.Q(d, n)
	t := "CREATE TABLE " + kit.Q(d, "w") + " (x int NOT NULL"
	switch sym.Choice(3) {
	case 0:
		sym.Tag("table")
		c08(d, t+", y int)", t+");\nCREATE TABLE "+q+" (x int)")
	case 1:
		sym.Tag("column")
		c08(d, t+")", t+", "+q+" int)")
	case 2:
		sym.Tag("default")
		c08(d, t+")", t+", y varchar(9) DEFAULT '"+strings.ReplaceAll(n, "\\", "\\\\")+"')")
	}
}
