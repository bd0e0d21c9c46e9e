package e2e

import (
	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// twin is a schema of two tables t(a,b,e) and p(a,b,e) and two objects of one kind
// on the same table or on different ones, whose names may begin or end with one
// another.
type twin struct {
	D             kit.Dialect
	T, P, A, B, E string
	Kind          string
	Before, Col   [2][2]string // statements before; columns of t and p, for each object
	Con           [2][2]string // constraints of t and p
	After         [2]string
	Same          bool // the objects may have the same name
	Up            bool // objects of this kind are not dropped
	Keys          string
	Plain         bool // the transition is not part of the label
}

func newTwin(d kit.Dialect, kinds []string) *twin {
	n := kit.Names(5, 2)
	w := &twin{D: d, T: n[0], P: n[1], A: n[2], B: n[3], E: n[4]}
	w.Kind = kinds[sym.Choice(len(kinds))]
	sym.Tag(w.Kind)
	at := [2]int{0, sym.Choice(2)}
	if w.Kind == "table" || w.Kind == "view" {
		sym.Assume(at[1] == 0)
	}
	tab := [2]string{w.T, w.P}
	x := "q" + kit.Name(1)
	y := ""
	n5 := 5
	if d == kit.Pg {
		n5 = 6
	}
	how := sym.Choice(n5)
	switch how {
	case 0:
		y = x + kit.Name(1)
	case 1:
		y = kit.Name(1) + x
	case 2:
		y = "q" + kit.Name(1)
		sym.Assume(x != y)
	case 3:
		y = "q" + kit.Name(1) + x
	case 4:
		y = x
		// One name for two objects of different tables.
		sym.Assume(at[1] == 1 && (w.Kind == "column" || w.Kind == "policy" || w.Kind == "index" && d%2 == kit.My%2 && d != kit.Lite))
	}
	if how == 5 {
		// Names which differ in letter case only.
		c := sym.ByteIn("jkqvwyz")
		x, y = "q"+string([]byte{c}), kit.Q(d, "q"+string([]byte{c - 32}))
		w.Plain = w.Kind == "view" // a known finding
	}
	for _, z := range n {
		sym.Assume(x != z && y != z)
	}
	sym.Tag([]string{"prefix", "suffix", "other", "ends alike", "same", "letter case"}[how])
	if sym.Choice(2) == 1 {
		x, y = y, x
	}
	if w.D == kit.My {
		w.Keys = ", KEY " + w.T + "k (" + w.B + ")"
	}
	o := [2]string{x, y}
	c := [2]string{w.B, w.E}
	for i := range o {
		switch w.Kind {
		case "table":
			w.Before[i][0] = "CREATE TABLE " + o[i] + " (" + w.A + " int NOT NULL)"
		case "column":
			w.Col[i][at[i]] = o[i] + " int"
		case "index":
			if d == kit.My {
				w.Con[i][at[i]] = "KEY " + o[i] + " (" + c[i] + ")"
			} else {
				w.After[i] = "CREATE INDEX " + o[i] + " ON " + tab[at[i]] + " (" + c[i] + ")"
			}
		case "unique index":
			if d == kit.My {
				w.Con[i][at[i]] = "UNIQUE KEY " + o[i] + " (" + c[i] + ")"
			} else {
				w.After[i] = "CREATE UNIQUE INDEX " + o[i] + " ON " + tab[at[i]] + " (" + c[i] + ")"
			}
		case "foreign key":
			w.Con[i][at[i]] = "CONSTRAINT " + o[i] + " FOREIGN KEY (" + w.B + ") REFERENCES " + w.P + " (" + w.A + ")"
		case "view":
			w.After[i] = "CREATE VIEW " + o[i] + " AS select " + c[i] + " from " + w.P
		case "policy":
			w.After[i] = "CREATE POLICY " + o[i] + " ON " + tab[at[i]] + " AS PERMISSIVE FOR ALL TO public USING (" + c[i] + " = 1)"
		case "trigger":
			w.Up = true
			if d == kit.My {
				w.After[i] = "CREATE TRIGGER " + o[i] + " before insert ON " + tab[at[i]] + " FOR EACH ROW insert into " + w.P + "(" + c[i] + ") values (1)"
			} else {
				w.After[i] = "CREATE TRIGGER " + o[i] + " ON " + tab[at[i]] + " after insert AS insert into " + w.P + "(" + c[i] + ") values (1)"
			}
		}
	}
	return w
}

// sql is the script with the objects for which on is true.
func (w *twin) sql(on [2]bool) string {
	s := ""
	for i := range on {
		if on[i] && w.Before[i][0] != "" {
			s += w.Before[i][0] + ";\n"
		}
	}
	for k, t := range []string{w.P, w.T} {
		pk := "PRIMARY KEY (" + w.A + ")"
		if w.D == kit.Ms {
			pk = "CONSTRAINT [" + t + "h] PRIMARY KEY (" + w.A + ")"
		}
		s += "CREATE TABLE " + t + " (" + w.A + " int NOT NULL, " + w.B + " int, " + w.E + " int"
		for i := range on {
			if on[i] && w.Col[i][1-k] != "" {
				s += ", " + w.Col[i][1-k]
			}
		}
		s += ", " + pk + w.Keys
		for i := range on {
			if on[i] && w.Con[i][1-k] != "" {
				s += ", " + w.Con[i][1-k]
			}
		}
		s += ");\n"
	}
	for i := range on {
		if on[i] && w.After[i] != "" {
			s += w.After[i] + ";\n"
		}
	}
	return s
}

func twinKinds(d kit.Dialect) []string {
	switch d {
	case kit.My:
		return []string{"table", "column", "index", "unique index", "foreign key", "view", "trigger"}
	case kit.Pg:
		return []string{"table", "column", "index", "unique index", "foreign key", "view", "policy"}
	case kit.Lite:
		return []string{"table", "column", "view"}
	}
	return []string{"table", "column", "index", "unique index", "foreign key", "view", "trigger"}
}

func (w *twin) mark(s string) {
	if !w.Plain {
		sym.Tag(s)
	}
}

// c06twin: of two objects of one kind exactly the obsolete ones are dropped and
// the missing ones made.
func c06twin(d kit.Dialect) {
	w := newTwin(d, twinKinds(d))
	var cur, des [2]bool
	drops, adds := 0, 0
	for i := range cur {
		switch sym.Choice(4) {
		case 0:
			sym.Assume(!w.Up)
			cur[i] = true
			drops++
			w.mark("-")
		case 1:
			des[i] = true
			adds++
			w.mark("+")
		case 2:
			cur[i], des[i] = true, true
			w.mark("=")
		}
	}
	db := script(d, w.sql(cur))
	want := script(d, w.sql(des))
	r := Run(db, w.sql(des), sqldef.Options{})
	sym.Assert(r.S.Refused == "", "a planned statement is refused: "+r.S.Refused)
	sym.Assert(r.Code == 0, "the run fails")
	n := 0
	for _, s := range r.S.Writes() {
		if Destructive(d, s) {
			n++
		}
	}
	sym.Assert(n >= drops, "an obsolete object is not dropped")
	sym.Assert(n <= drops, "an object is dropped needlessly")
	sym.Assert(len(r.S.Writes()) == drops+adds, "objects equal on both sides are touched")
	x := kit.Diff(db, want)
	sym.Assert(x == "", x)
	x = kit.Diff(want, db)
	sym.Assert(x == "", x)
	sym.Cover("end")
}

func HC06TwinMy()   { c06twin(kit.My) }
func HC06TwinPg()   { c06twin(kit.Pg) }
func HC06TwinLite() { c06twin(kit.Lite) }
func HC06TwinMs()   { c06twin(kit.Ms) }
