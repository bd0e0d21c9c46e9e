// Package e2e drives sqldef.Run through the real adapters against the reference
// database of package kit.
package e2e

import (
	"strings"

	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/adapter"
	"github.com/k0kubun/sqldef/adapter/mssql"
	"github.com/k0kubun/sqldef/adapter/mysql"
	"github.com/k0kubun/sqldef/adapter/postgres"
	"github.com/k0kubun/sqldef/adapter/sqlite3"
	"github.com/k0kubun/sqldef/schema"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// Open connects the adapter of the dialect to the server.
func Open(d kit.Dialect) (adapter.Database, error) {
	c := adapter.Config{DbName: "db", User: "u", Password: "p", Host: "h", Port: 1}
	switch d {
	case kit.My:
		return mysql.NewDatabase(c)
	case kit.Pg:
		return postgres.NewDatabase(c)
	case kit.Lite:
		return sqlite3.NewDatabase(c)
	}
	return mssql.NewDatabase(c)
}

func mode(d kit.Dialect) schema.GeneratorMode {
	switch d {
	case kit.My:
		return schema.GeneratorModeMysql
	case kit.Pg:
		return schema.GeneratorModePostgres
	case kit.Lite:
		return schema.GeneratorModeSQLite3
	}
	return schema.GeneratorModeMssql
}

// R is the outcome of one run.
type R struct {
	Code int // 0, -1 panic, 1000+n exit
	Msg  string
	Out  string
	S    *kit.Server
}

// Run runs sqldef against a server holding db.
func Run(db *kit.DB, des string, o sqldef.Options) R {
	return RunOn(kit.NewServer(db), des, o)
}

// RunOn runs sqldef against the server.
func RunOn(s *kit.Server, des string, o sqldef.Options) R {
	d := s.DB.D
	a, err := Open(d)
	sym.Assume(err == nil)
	o.SqlFile = sym.File(des)
	sym.Stdout()
	code, msg := sym.Catch(func() { sqldef.Run(mode(d), a, &o) })
	r := R{code, msg, sym.Stdout(), s}
	sym.Dump("desired:\n" + des)
	sym.Dump("output (" + r.Msg + "):\n" + r.Out)
	return r
}

// Failed: the run ended with a failure status (not a crash).
func (r R) Failed() bool { return r.Code > 1000 }

// Lines are the statements printed by a run, in order; skipped ones are marked.
type Line struct {
	SQL  string
	Skip bool
}

// Printed parses standard output after the header; ok is false when the text is
// not a header followed by statements ending in ";\n".
func Printed(out, header string) (l []Line, ok bool) {
	if !strings.HasPrefix(out, header+"\n") {
		return nil, false
	}
	out = out[len(header)+1:]
	for len(out) > 0 {
		i := strings.Index(out, ";\n")
		if i < 0 {
			return l, false
		}
		s := out[:i]
		out = out[i+2:]
		if strings.HasPrefix(s, "-- Skipped: ") {
			l = append(l, Line{s[len("-- Skipped: "):], true})
		} else {
			l = append(l, Line{s, false})
		}
	}
	return l, true
}

// Destructive: the statement drops an object (a DROP keyword outside quotes).
func Destructive(d kit.Dialect, s string) bool {
	for _, t := range kit.Lex(d, s) {
		if t.K == 'w' && t.L == "drop" {
			return true
		}
	}
	return false
}
