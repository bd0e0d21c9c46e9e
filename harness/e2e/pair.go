package e2e

import (
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// Obj is one schema object that may be present or not in a schema.
type Obj struct {
	Tag  string
	Col  string // column of the main table
	Con  string // table constraint of the main table
	Stmt string // statement after the tables
	Tab  string // table statement before the main table
}

// World is a main table with a parent table and a set of optional objects.
type World struct {
	D          kit.Dialect
	T, P, U, V string // main, parent, optional table; view
	A, B, C, E string // columns; C is optional, E carries the foreign key
	I, J, F, Y string // index, unique index, foreign key, policy
	K, L       string // primary keys
	Objs       []Obj
}

// NewWorld makes a world; with free set a column may be named like anything else.
func NewWorld(d kit.Dialect, free bool) *World {
	w := &World{D: d}
	t := kit.Names(13, 2)
	w.T, w.P, w.U, w.V, w.I, w.J, w.F, w.K, w.L = t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8]
	c := t[9:]
	if free {
		c = kit.Names(4, 2)
	}
	w.A, w.B, w.C, w.E = c[0], c[1], c[2], c[3]
	w.Y = w.I
	add := func(o Obj) { w.Objs = append(w.Objs, o) }
	add(Obj{Tag: "table", Tab: "CREATE TABLE " + w.U + " (" + w.A + " int NOT NULL)"})
	add(Obj{Tag: "column", Col: w.C + " int"})
	if d != kit.Lite {
		switch d {
		case kit.My:
			add(Obj{Tag: "index", Con: "KEY " + w.I + " (" + w.A + ")"})
			add(Obj{Tag: "unique index", Con: "UNIQUE KEY " + w.J + " (" + w.B + ")"})
		default:
			add(Obj{Tag: "index", Stmt: "CREATE INDEX " + w.I + " ON " + w.T + " (" + w.A + ")"})
			add(Obj{Tag: "unique index", Stmt: "CREATE UNIQUE INDEX " + w.J + " ON " + w.T + " (" + w.B + ")"})
		}
		add(Obj{Tag: "primary key", Con: w.pk(w.K)})
		add(Obj{Tag: "foreign key", Con: "CONSTRAINT " + w.F + " FOREIGN KEY (" + w.E + ") REFERENCES " + w.P + " (" + w.A + ")"})
	}
	add(Obj{Tag: "view", Stmt: "CREATE VIEW " + w.V + " AS select " + w.A + " from " + w.P})
	if d == kit.Pg {
		add(Obj{Tag: "policy", Stmt: "CREATE POLICY " + w.Y + " ON " + w.T + " AS PERMISSIVE FOR ALL TO public USING (" + w.A + " = 1)"})
	}
	return w
}

func (w *World) pk(name string) string {
	if w.D == kit.Ms {
		return "CONSTRAINT [" + name + "] PRIMARY KEY (" + w.A + ")"
	}
	return "PRIMARY KEY (" + w.A + ")"
}

// SQL is the script with the objects for which on is true.
func (w *World) SQL(on []bool) string {
	s := "CREATE TABLE " + w.P + " (" + w.A + " int NOT NULL, " + w.pk(w.L) + ");\n"
	for i, o := range w.Objs {
		if on[i] && o.Tab != "" {
			s += o.Tab + ";\n"
		}
	}
	s += "CREATE TABLE " + w.T + " (" + w.A + " int NOT NULL, " + w.B + " int, " + w.E + " int"
	for i, o := range w.Objs {
		if on[i] && o.Col != "" {
			s += ", " + o.Col
		}
	}
	for i, o := range w.Objs {
		if on[i] && o.Con != "" {
			s += ", " + o.Con
		}
	}
	s += ");\n"
	for i, o := range w.Objs {
		if on[i] && o.Stmt != "" {
			s += o.Stmt + ";\n"
		}
	}
	return s
}

// Pick chooses k objects and, for each, where it is present: in the current
// schema, in the desired one, in both or in neither.
func (w *World) Pick(k int, neither bool) (cur, des []bool) {
	cur, des = make([]bool, len(w.Objs)), make([]bool, len(w.Objs))
	last := 0
	for n := 0; n < k; n++ {
		i := last + sym.Choice(len(w.Objs)-(k-1-n)-last)
		last = i + 1
		st := 3
		if neither {
			st = 4
		}
		switch sym.Choice(st) {
		case 0:
			cur[i] = true
			sym.Tag("-" + w.Objs[i].Tag)
		case 1:
			des[i] = true
			sym.Tag("+" + w.Objs[i].Tag)
		case 2:
			cur[i], des[i] = true, true
			sym.Tag("=" + w.Objs[i].Tag)
		}
	}
	return
}
