package e2e

import (
	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// c16: a contradictory desired schema is rejected without any change, whatever the
// current schema and wherever the contradiction stands.
func c16(d kit.Dialect) {
	n := kit.Names(10, 2)
	t, u, v, a, b, i, j, k, x, y := n[0], n[1], n[2], n[3], n[4], "i"+n[5], "j"+n[6], "k"+n[7], "x"+n[8], "y"+n[9]
	fk := func(name, col string) string {
		return "CONSTRAINT " + name + " FOREIGN KEY (" + col + ") REFERENCES " + u + " (" + a + ")"
	}
	pk := "PRIMARY KEY (" + a + ")"
	if d == kit.Ms {
		pk = "CONSTRAINT p" + u + " PRIMARY KEY (" + a + ")"
	}
	parent := "CREATE TABLE " + u + " (" + a + " int NOT NULL, " + pk + ")"
	con := ""
	pre, post := []string{}, []string{} // statements around the table t; their order is free
	cur := []string{parent, "CREATE TABLE " + t + " (" + a + " int NOT NULL, " + b + " int)", "CREATE TABLE " + x + " (" + a + " int NOT NULL)"}
	index := func(name, tab, col string) string {
		u := ""
		if sym.Choice(2) == 1 {
			u = "UNIQUE "
		}
		return "CREATE " + u + "INDEX " + name + " ON " + tab + " (" + col + ")"
	}
	addIndex := func(name, tab, col string) string {
		if d == kit.My && sym.Choice(2) == 1 {
			return "ALTER TABLE " + tab + " ADD INDEX " + name + " (" + col + ")"
		}
		return index(name, tab, col)
	}
	policy := func(name, tab, e string) string {
		return "CREATE POLICY " + name + " ON " + tab + " AS PERMISSIVE FOR ALL TO public USING (" + e + " = 1)"
	}
	view := func(name, col string) string { return "CREATE VIEW " + name + " AS select " + col + " from " + u }
	table := func() string {
		s := "CREATE TABLE " + t + " (" + a + " int NOT NULL, " + b + " int"
		return s + con + ")"
	}
	kind := sym.Choice(10)
	col := []string{a, b}[sym.Choice(2)]
	switch kind {
	case 0:
		sym.Tag("index twice")
		post = append(post, addIndex(i, t, a), addIndex(i, t, col))
	case 1:
		sym.Tag("index twice in the table and after")
		if d != kit.My {
			sym.Assume(false)
		}
		con = ", KEY " + i + " (" + a + ")"
		post = append(post, addIndex(i, t, col))
	case 2:
		sym.Tag("index twice in the table")
		if d != kit.My {
			sym.Assume(false)
		}
		con = ", KEY " + i + " (" + a + "), UNIQUE KEY " + i + " (" + col + ")"
	case 3:
		sym.Tag("policy twice")
		if d != kit.Pg {
			sym.Assume(false)
		}
		post = append(post, policy(i, t, a), policy(i, t, col))
	case 4:
		sym.Tag("view twice")
		pre = append(pre, view(v, a), view(v, a))
	case 5:
		sym.Tag("foreign key twice in the table")
		con = ", " + fk(k, b) + ", " + fk(k, col)
	case 6:
		sym.Tag("foreign key twice in the table and after")
		con = ", " + fk(k, b)
		post = append(post, "ALTER TABLE ONLY "+t+" ADD "+fk(k, col))
	case 7:
		sym.Tag("foreign key without name")
		if sym.Choice(2) == 1 {
			con = ", " + fk("", b)
		} else {
			post = append(post, "ALTER TABLE ONLY "+t+" ADD "+fk("", b))
		}
	case 8:
		sym.Tag("index on an undefined table")
		// x exists in the current schema, y nowhere
		post = append(post, addIndex(i, []string{x, y}[sym.Choice(2)], a))
	case 9:
		sym.Tag("policy on an undefined table")
		if d != kit.Pg {
			sym.Assume(false)
		}
		post = append(post, policy(i, []string{x, y}[sym.Choice(2)], a))
	}
	// what else the desired schema holds, around the contradiction
	des := []string{parent}
	des = append(des, pre...)
	des = append(des, table())
	more := sym.Choice(3)
	extra := ""
	switch more {
	case 1:
		extra = "CREATE TABLE " + "o" + n[5] + " (" + a + " int)"
	case 2:
		extra = view("w"+n[6], a)
	}
	at := 0
	if more > 0 {
		at = 1 + sym.Choice(len(post)+2)
	}
	if at == 1 {
		des = append([]string{extra}, des...)
	}
	for m, s := range post {
		if at == m+2 {
			des = append(des, extra)
		}
		des = append(des, s)
	}
	if at == len(post)+2 {
		des = append(des, extra)
	}
	if at == 1 && more == 2 {
		sym.Assume(true)
	}
	sql := ""
	for _, s := range des {
		sql += s + ";\n"
	}
	// the current schema: empty, the tables, or the tables and what is contradictory
	var now []string
	switch sym.Choice(4) {
	case 1:
		now = cur[:1]
	case 2:
		now = cur
	case 3:
		now = append([]string{}, cur...)
		switch kind {
		case 0, 1, 2:
			if d != kit.Lite {
				now = append(now, "CREATE INDEX "+i+" ON "+t+" ("+a+")")
			}
		case 3:
			now = append(now, policy(i, t, a))
		case 4:
			now = append(now, view(v, a))
		case 5, 6:
			now[1] = "CREATE TABLE " + t + " (" + a + " int NOT NULL, " + b + " int, " + fk(k, b) + ")"
		}
	}
	_ = j
	c := ""
	for _, s := range now {
		c += s + ";\n"
	}
	db := script(d, c)
	before := db.Clone()
	r := Run(db, sql, sqldef.Options{DryRun: sym.Choice(2) == 1, SkipDrop: sym.Choice(2) == 1})
	sym.Assert(r.Code != 0, "a contradictory schema is accepted")
	sym.Assert(r.Failed(), "a contradictory schema ends in a crash")
	sym.Assert(r.Out == "", "a plan is printed for a contradictory schema")
	sym.Assert(r.S.Count("begin") == 0 && len(r.S.Writes()) == 0 && equalDB(r.S.DB, before), "a contradictory schema changes the database")
	sym.Cover("rejected")
}

func HC16My()   { c16(kit.My) }
func HC16Pg()   { c16(kit.Pg) }
func HC16Lite() { c16(kit.Lite) }
func HC16Ms()   { c16(kit.Ms) }
