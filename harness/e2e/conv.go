package e2e

import (
	"strings"

	"github.com/k0kubun/sqldef"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// Slot is one feature of a schema with its variants.
type Slot struct {
	Tag string
	At  byte     // c column of the main table, f column before the others, k table constraint, s statement after, t statement before
	L   []string // concrete labels
	V   []string
}

// Wide is a main table t(a,b,e), a parent table p(a,b) and feature slots.
type Wide struct {
	D                            kit.Dialect
	T, P, A, B, C, E, I, F, V, G string
	H, N                         string
	S                            []Slot
}

func (w *Wide) slot(tag string, at byte, lv ...string) {
	s := Slot{Tag: tag, At: at}
	for i := 0; i < len(lv); i += 2 {
		s.L = append(s.L, lv[i])
		s.V = append(s.V, lv[i+1])
	}
	w.S = append(w.S, s)
}

// col is a slot for the definition of column c: label = definition with values abstract.
func (w *Wide) col(tag string, lv ...string) {
	for i := 1; i < len(lv); i += 2 {
		if lv[i] != "" {
			lv[i] = w.C + " " + lv[i]
		}
	}
	w.slot(tag, 'c', lv...)
}

// SQL is the schema with variant v[i] of slot i.
func (w *Wide) SQL(v []int) string {
	at := func(k byte, sep, end string) string {
		s := ""
		for i, x := range w.S {
			if v[i] >= len(x.V) {
				continue
			}
			if x.At == k && x.V[v[i]] != "" {
				s += sep + x.V[v[i]] + end
			}
			if x.At == '*' {
				for _, p := range strings.Split(x.V[v[i]], "\x00") {
					if len(p) > 1 && p[0] == k {
						s += sep + p[1:] + end
					}
				}
			}
		}
		return s
	}
	pk := "PRIMARY KEY (" + w.A + ")"
	if w.D == kit.Ms {
		pk = "CONSTRAINT " + w.H + " PRIMARY KEY (" + w.A + ")"
	}
	s := "CREATE TABLE " + w.P + " (" + w.A + " int NOT NULL, " + w.B + " int NOT NULL, " + pk + ");\n"
	s += at('t', "", ";\n")
	s += "CREATE TABLE " + w.T + " (" + at('f', "", ", ") + w.A + " int NOT NULL, " + w.B + " int NOT NULL, " + w.E + " int" + at('c', ", ", "") + at('k', ", ", "") + ");\n"
	return s + at('s', "", ";\n")
}

// NewWide makes the slots of a dialect.
func NewWide(d kit.Dialect) *Wide {
	return namedWide(d, kit.Names(12, 2))
}

func namedWide(d kit.Dialect, n []string) *Wide {
	w := &Wide{D: d, T: n[0], P: n[1], A: n[2], B: n[3], C: n[4], E: n[5], I: n[6], F: n[7], V: n[8], G: n[9], H: n[10], N: n[11]}
	switch d {
	case kit.My:
		w.mysql()
	case kit.Pg:
		w.postgres()
	case kit.Lite:
		w.sqlite()
	default:
		w.mssql()
	}
	return w
}

// base is the variant of each slot used where the slot is not the one examined.
func (w *Wide) base() []int { return make([]int, len(w.S)) }

// conv: the plan is accepted statement by statement, reaches the desired schema,
// and a second run has nothing to do.
func (w *Wide) conv(cur, des string) {
	db := script(w.D, cur)
	want := script(w.D, des)
	r := Run(db, des, sqldef.Options{})
	sym.Assert(r.S.Refused == "", "a planned statement is refused: "+r.S.Refused)
	sym.Assert(r.Code == 0, "the run fails")
	x := kit.Diff(db, want)
	sym.Assert(x == "", x)
	r = Run(db, des, sqldef.Options{})
	sym.Assert(r.Out == "-- Nothing is modified --\n", "a second run still changes something")
	sym.Cover("converged")
}

// tag labels the transition of a slot: known defects are labelled by their class,
// changes outside the supported set are left out.
func (w *Wide) tag(k, i, j int) {
	s := w.S[k]
	c := w.class(s.Tag, s.L[i], s.L[j])
	sym.Assume(c != "-")
	if c == "" {
		c = s.Tag + ": " + s.L[i] + " -> " + s.L[j]
	}
	sym.Tag(c)
}

func oneOf(s string, l ...string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

// class of the transition from variant a to variant b of a slot.
func (w *Wide) class(slot, a, b string) string {
	if a == b && slot != "index" {
		return ""
	}
	trg := func(s string) bool { return strings.HasPrefix(s, "trigger") }
	if slot == "table with trigger" && trg(a) && !trg(b) && !(a == "trigger" && b == "absent") {
		return "-"
	}
	switch w.D {
	case kit.My:
		switch {
		case slot == "referring column" && a == "indexed" && b == "refers":
			return "index needed by a remaining foreign key"
		case slot == "trigger" && b == "none":
			return "-"
		}
	case kit.Pg:
		switch {
		case slot == "identity options" && !oneOf(a, "absent", "none") && !oneOf(b, "absent", "none"):
			return "-"
		}
	case kit.Lite:
		if (slot == "column" || slot == "type") && a != "absent" && b != "absent" {
			return "-"
		}
	case kit.Ms:
		notnull := func(s string) string {
			if strings.HasSuffix(s, " not null") || s == "b a" {
				return "a b"
			}
			return s
		}
		isnull := func(s string) bool { return !oneOf(s, "not null", "not null default") }
		switch {
		case slot == "type" && a != "absent" && b != "absent" && a != b:
			return "-"
		case slot == "compound key" && a != "absent" && b != "absent" && notnull(a) != notnull(b):
			return "-"
		case slot == "identity" && (oneOf(a, "identity", "replication") && b == "other" || a == "other" && oneOf(b, "identity", "replication")):
			return "-"
		case slot == "trigger" && b == "none", slot == "text" && a != "absent" && b != "absent" && !(oneOf(a, "varchar", "default") && oneOf(b, "varchar", "default")):
			return "-"
		case slot == "integer" && a != "absent" && b != "absent" && ((a == "bigint") != (b == "bigint") || isnull(a) != isnull(b)):
			return "-"
		case slot == "integer" && (a == "default" && b == "named default" || a == "other default" && b == "other named default"):
			return "name of a default constraint"
		case slot == "primary key" && b == "nonclustered" && oneOf(a, "a", "renamed", "unnamed"), slot == "primary key" && a == "nonclustered" && oneOf(b, "a", "renamed", "unnamed"):
			return "clustering of a primary key"
		case slot == "index" && (a == "where" || b == "where"):
			return "filtered index"
		case slot == "index" && (a == "clustered") != (b == "clustered"):
			return "clustering of an index"
		case slot == "inline index" && a != "none" && b != "none" && strings.Contains(a, " CLUSTERED") != strings.Contains(b, " CLUSTERED"):
			return "clustering of an index"
		}
	}
	return ""
}

// one: every transition of one slot.
func one(d kit.Dialect) {
	w := NewWide(d)
	k := sym.Choice(len(w.S))
	s := w.S[k]
	i, j := sym.Choice(len(s.V)), sym.Choice(len(s.V))
	c, e := w.base(), w.base()
	c[k], e[k] = i, j
	w.tag(k, i, j)
	w.conv(w.SQL(c), w.SQL(e))
}

func (w *Wide) usesC(k, i int) bool {
	s := w.S[k]
	return s.V[i] != "" && (s.At == 'c' || s.Tag == "column order")
}

// pairBad: combinations with a known defect (examined by HConvKnown) or refused as unsupported.
func (w *Wide) pairBad(k, l int, e []int) bool {
	a, b := w.S[k], w.S[l]
	switch {
	case w.D == kit.Ms && a.Tag == "primary key" && b.Tag == "inline index":
		return !strings.Contains(b.L[e[l]], "CLUSTERED") && e[l] > 0
	case w.D == kit.Pg && a.Tag == "key column" && b.Tag == "primary key":
		return a.L[e[k]] == "primary"
	}
	return false
}

// bundle adds slots whose parts depend on each other.
func (w *Wide) bundle() {
	n := func(p ...string) string { return strings.Join(p, "\x00") }
	col := "c" + w.C + " int"
	nn := "c" + w.C + " int NOT NULL"
	idx := func(c string) string {
		if w.D == kit.My {
			return "kKEY " + w.I + " (" + c + ")"
		}
		return "sCREATE INDEX " + w.I + " ON " + w.T + " (" + c + ")"
	}
	uniq := func(c string) string {
		if w.D == kit.My {
			return "kUNIQUE KEY " + w.I + " (" + c + ")"
		}
		return "sCREATE UNIQUE INDEX " + w.I + " ON " + w.T + " (" + c + ")"
	}
	pk := func(c string) string {
		if w.D == kit.Ms {
			return "kCONSTRAINT " + w.N + " PRIMARY KEY (" + c + ")"
		}
		return "kPRIMARY KEY (" + c + ")"
	}
	fk := func(c, t string) string {
		return "kCONSTRAINT " + w.F + " FOREIGN KEY (" + c + ") REFERENCES " + t + " (" + w.A + ")"
	}
	w.slot("indexed column", '*', "absent", "", "column", n(col), "indexed", n(col, idx(w.C)), "indexed with a", n(col, idx(w.A+", "+w.C)), "unique", n(col, uniq(w.C)), "only a", n(idx(w.A)), "column and a", n(col, idx(w.A)))
	w.slot("key of column", '*', "absent", "", "column", n(nn), "key", n(nn, pk(w.C)), "key with a", n(nn, pk(w.A+", "+w.C)), "only a", n(pk(w.A)), "column and a", n(nn, pk(w.A)))
	if w.D != kit.Lite {
		var ck []string
		for _, c := range [][2]string{{"", ""}, {" not null", " NOT NULL"}} {
			for _, k := range [][2]string{{"no key", ""}, {"a", w.A}, {"a b", w.A + ", " + w.B}, {"b a", w.B + ", " + w.A}, {"b", w.B}} {
				t := "tCREATE TABLE " + w.G + " (" + w.A + " int" + c[1] + ", " + w.B + " int" + c[1]
				if k[1] != "" {
					t += ", " + pk(k[1])[1:]
				}
				ck = append(ck, k[0]+c[0], n(t+")"))
			}
		}
		w.slot("compound key", '*', append([]string{"absent", ""}, ck...)...)
	}
	w.slot("referring column", '*', "absent", "", "column", n(col), "refers", n(col, fk(w.C, w.P)), "other refers", n(fk(w.E, w.P)), "column and other", n(col, fk(w.E, w.P)), "indexed", n(col, idx(w.C), fk(w.C, w.P)))
	g := "tCREATE TABLE " + w.G + " (" + w.A + " int NOT NULL, " + w.B + " int, "
	gk := pk(w.A)[1:]
	if w.D == kit.Ms {
		gk = "CONSTRAINT " + w.N + " PRIMARY KEY (" + w.A + ")"
	}
	gf := ", CONSTRAINT " + w.V + " FOREIGN KEY (" + w.B + ") REFERENCES " + w.P + " (" + w.A + ")"
	w.slot("referred table", '*', "absent", "", "table", n(g+gk+")"), "referred", n(g+gk+")", fk(w.E, w.G)), "refers", n(g+gk+gf+")"), "chain", n(g+gk+gf+")", fk(w.E, w.G)), "not referred", n(fk(w.E, w.P)), "table and other", n(g+gk+")", fk(w.E, w.P)))
	tab := func(name, to, con string) string {
		k := pk(w.A)[1:]
		if w.D == kit.Ms {
			k = "CONSTRAINT " + name + "k PRIMARY KEY (" + w.A + ")"
		}
		x := "tCREATE TABLE " + name + " (" + w.A + " int NOT NULL, " + w.B + " int, " + k
		if to != "" {
			x += ", CONSTRAINT " + con + " FOREIGN KEY (" + w.B + ") REFERENCES " + to + " (" + w.A + ")"
		}
		return x + ")"
	}
	p2, q2 := w.G+"p", w.G+"q"
	cyc := []string{}
	if w.D == kit.Pg {
		cyc = []string{"cycle", n(tab(p2, "", ""), tab(q2, p2, w.F), "sALTER TABLE ONLY "+p2+" ADD CONSTRAINT "+w.V+" FOREIGN KEY ("+w.B+") REFERENCES "+q2+" ("+w.A+")")}
	}
	w.slot("tables referring to each other", '*', append([]string{"absent", ""}, append(cyc, "unrelated", n(tab(p2, "", ""), tab(q2, "", "")), "second refers", n(tab(p2, "", ""), tab(q2, p2, w.F)), "first refers", n(tab(q2, "", ""), tab(p2, q2, w.F)), "itself", n(tab(p2, p2, w.F), tab(q2, "", "")), "only first", n(tab(p2, "", "")), "only second", n(tab(q2, "", "")), "three", n(tab(q2, "", ""), tab(p2, q2, w.F), tab(w.G, p2, w.V)), "two to one", n(tab(q2, "", ""), tab(p2, q2, w.F), tab(w.G, q2, w.V)))...)...)
	view := func(c, t string) string { return "sCREATE VIEW " + w.V + " AS select " + c + " from " + t }
	w.slot("viewed table", '*', "absent", "", "table", n(g+gk+")"), "view", n(g+gk+")", view(w.A, w.G)), "other view", n(g+gk+")", view(w.A, w.P)), "only view", n(view(w.A, w.P)), "view of column", n(col, view(w.C, w.T)), "column", n(col), "view of a", n(col, view(w.A, w.T)))
	if w.D != kit.Lite {
		v2 := func(c, t string) string { return "sCREATE VIEW " + w.H + "v AS select " + c + " from " + t }
		one := view(w.A, w.T)
		w.slot("view on a view", '*', "absent", "", "one", n(one), "other", n(view(w.B, w.T)), "two", n(one, v2(w.A, w.V)), "other two", n(view(w.B, w.T), v2(w.B, w.V)), "wider", n(view(w.A+", "+w.B, w.T), v2(w.A, w.V)), "both wider", n(view(w.A+", "+w.B, w.T), v2(w.A+", "+w.B, w.V)), "second on table", n(one, v2(w.A, w.T)), "only second", n(v2(w.A, w.T)), "condition", n(view(w.A, w.T+" where "+w.B+" = 1"), v2(w.A, w.V)))
	}
	two := "tCREATE TABLE " + w.G + " (" + w.A + " int NOT NULL, " + w.B + " int)"
	on := func(t, c string) string { return "sCREATE INDEX " + w.I + " ON " + t + " (" + c + ")" }
	w.slot("indexed table", '*', "absent", "", "table", n(two), "index", n(two, on(w.G, w.A)), "index of t", n(on(w.T, w.A)), "table, index of t", n(two, on(w.T, w.A)), "other index", n(two, on(w.G, w.B)))
	if w.D == kit.Pg || w.D == kit.Ms {
		q := w.N + "." + w.G
		of := func(t, c string) string {
			return "tCREATE TABLE " + t + " (" + w.A + " int NOT NULL, " + w.B + " int" + c + ")"
		}
		key := ", CONSTRAINT " + w.H + "k PRIMARY KEY (" + w.A + ")"
		if w.D == kit.Pg {
			key = ", PRIMARY KEY (" + w.A + ")"
		}
		vw := func(v, c string) string { return "sCREATE VIEW " + v + " AS select " + c + " from " + q }
		w.slot("qualified table", '*', "absent", "", "table", n(of(q, "")), "wider", n(of(q, ", "+w.C+" int")), "key", n(of(q, key)), "twin", n(of(q, ""), of(w.G, "")), "wider twin", n(of(q, ", "+w.C+" int"), of(w.G, "")), "narrow twin", n(of(q, ""), of(w.G, ", "+w.C+" int")), "only twin", n(of(w.G, "")),
			"index", n(of(q, ""), on(q, w.A)), "other index", n(of(q, ""), on(q, w.B)), "index of twin", n(of(q, ""), of(w.G, ""), on(w.G, w.A)))
		ck := func(c string) string { return of(q, " CHECK ("+w.B+" > "+c+")") }
		if w.D == kit.Pg {
			w.slot("check of a qualified table", '*', "absent", "", "none", n(of(q, "")), "check", n(ck("1")), "other", n(ck("2")))
		}
		ref := func(from, to string) string {
			return of(from, key+", CONSTRAINT "+w.F+" FOREIGN KEY ("+w.B+") REFERENCES "+to+" ("+w.A+")")
		}
		w.slot("key of a qualified table", '*', "absent", "", "table", n(of(q, key)), "refers", n(ref(q, w.P)), "referred", n(of(q, key), fk(w.E, q)), "not referred", n(of(q, key), fk(w.E, w.P)), "refers to default", n(ref(q, map[kit.Dialect]string{kit.Pg: "public.", kit.Ms: "dbo."}[w.D]+w.P)))
		w.slot("qualified view", '*', "absent", "", "table", n(of(q, "")), "view", n(of(q, ""), vw(w.N+"."+w.V, w.A)), "other", n(of(q, ""), vw(w.N+"."+w.V, w.B)), "default", n(of(q, ""), vw(w.V, w.A)), "both", n(of(q, ""), vw(w.N+"."+w.V, w.A), vw(w.V, w.B)))
	}
	switch w.D {
	case kit.Pg:
		alt := func(c, o string) string {
			return "sALTER TABLE ONLY " + w.T + " ADD CONSTRAINT " + w.F + " FOREIGN KEY (" + c + ") REFERENCES " + w.P + " (" + w.A + ")" + o
		}
		w.slot("foreign key statement", '*', "absent", "", "column", n(col), "statement", n(alt(w.E, "")), "cascade", n(alt(w.E, " ON DELETE CASCADE")), "other", n(alt(w.B, "")), "of column", n(col, alt(w.C, "")), "inline", n(fk(w.E, w.P)), "inline of column", n(col, fk(w.C, w.P)))
		w.slot("policy of a qualified table", '*', "absent", "", "table", n(of2(w)), "policy", n(of2(w), pol2(w, "1")), "other", n(of2(w), pol2(w, "2")))
		p := func(t string) string {
			return "sCREATE POLICY " + w.V + " ON " + t + " AS PERMISSIVE FOR ALL TO public USING (" + w.A + " = 1)"
		}
		w.slot("table with policy", '*', "absent", "", "table", n(two), "policy", n(two, p(w.G)), "policy of t", n(p(w.T)), "table, policy of t", n(two, p(w.T)), "both", n(two, p(w.T), p(w.G)))
	case kit.My:
		t := func(t string) string {
			return "sCREATE TRIGGER " + w.V + " AFTER INSERT ON " + t + " FOR EACH ROW insert into " + w.P + " (" + w.A + ") values (1)"
		}
		w.slot("table with trigger", '*', "absent", "", "table", n(two), "trigger", n(two, t(w.G)), "trigger of t", n(t(w.T)))
		w.slot("numbered column", '*', "absent", "", "column", n(nn), "numbered", n(nn+" AUTO_INCREMENT", idx(w.C)), "numbered key", n(nn+" AUTO_INCREMENT", pk(w.C)), "inline key", n(nn+" AUTO_INCREMENT PRIMARY KEY"), "indexed", n(nn, idx(w.C)), "key", n(nn, pk(w.C)), "numbered a", n("kKEY "+w.I+" ("+w.A+")"),
			"bare column", n(col), "bare key", n(col, pk(w.C)), "bare numbered", n(col+" AUTO_INCREMENT", idx(w.C)), "bare numbered key", n(col+" AUTO_INCREMENT", pk(w.C)), "big column", n("c"+w.C+" bigint"), "big key", n("c"+w.C+" bigint", pk(w.C)), "big numbered", n("c"+w.C+" bigint NOT NULL AUTO_INCREMENT", idx(w.C)), "big numbered key", n("c"+w.C+" bigint NOT NULL AUTO_INCREMENT", pk(w.C)),
			"numbered, two columns", n(col+" AUTO_INCREMENT", idx(w.C+", "+w.A)), "numbered key, two columns", n(col+" AUTO_INCREMENT", pk(w.C+", "+w.A)), "key, two columns", n(col, pk(w.A+", "+w.C)), "numbered twice", n(col+" AUTO_INCREMENT", idx(w.C), pk(w.C)), "null", n("c"+w.C+" int NULL"), "default null", n("c"+w.C+" int DEFAULT NULL"))
		vc := "c" + w.C + " varchar(20)"
		px := []string{"absent", "", "none", n(vc), "statement", n(vc, "sCREATE INDEX "+w.I+" ON "+w.T+" ("+w.C+"(5))"), "other statement", n(vc, "sCREATE INDEX "+w.I+" ON "+w.T+" ("+w.C+")"), "whole statement", n(vc, "sALTER TABLE "+w.T+" ADD INDEX "+w.I+" ("+w.C+"(20))"),
			"first of two", n(vc, idx(w.C+"(5), "+w.A)), "second of two", n(vc, idx(w.A+", "+w.C+"(7)")), "unique", n(vc, uniq(w.C+"(7)")), "longer", n("c"+w.C+" varchar(30)", idx(w.C+"(20)"))}
		for _, l := range []string{"", "(5)", "(7)", "(20)"} {
			px = append(px, "index "+l, n(vc, idx(w.C+l)))
		}
		for _, o := range []string{" COMMENT 'x'", " COMMENT 'y'", " KEY_BLOCK_SIZE 4", " KEY_BLOCK_SIZE 8 COMMENT 'x'", " USING BTREE"} {
			px = append(px, "index"+o, n(vc, idx(w.C)+o))
		}
		px = append(px, "fulltext", n(vc, "kFULLTEXT KEY "+w.I+" ("+w.C+")"), "ngram", n(vc, "kFULLTEXT KEY "+w.I+" ("+w.C+") WITH PARSER ngram"))
		w.slot("prefix index", '*', px...)
		w.slot("ordered columns", '*', "absent", "", "first", n("f"+w.C+" int"), "last", n(col), "first of two", n("f"+w.C+" int", "c"+w.G+" int"), "last of two", n("f"+w.G+" int", col))
	case kit.Ms:
		t := func(t string) string {
			return "sCREATE TRIGGER " + w.V + " ON " + t + " AFTER INSERT AS insert into " + w.P + " (" + w.A + ") values (1)"
		}
		w.slot("table with trigger", '*', "absent", "", "table", n(two), "trigger", n(two, t(w.G)), "trigger of t", n(t(w.T)))
		w.slot("constrained column", '*', "absent", "", "column", n(col), "default", n(col+" DEFAULT 1"), "check", n(col+" CHECK ("+w.C+" > "+w.A+")"), "default and index", n(col+" DEFAULT 1", idx(w.C)), "included", n(col, "sCREATE NONCLUSTERED INDEX "+w.I+" ON "+w.T+" ("+w.A+") INCLUDE ("+w.C+")"))
	}
}

func of2(w *Wide) string { return "tCREATE TABLE " + w.N + "." + w.G + " (" + w.A + " int)" }

func pol2(w *Wide, x string) string {
	return "sCREATE POLICY " + w.V + " ON " + w.N + "." + w.G + " AS PERMISSIVE FOR ALL TO public USING (" + w.A + " = " + x + ")"
}

// bundled: every transition of one bundle.
func bundled(d kit.Dialect) {
	w := NewWide(d)
	w.S = nil
	w.bundle()
	k := sym.Choice(len(w.S))
	s := w.S[k]
	i, j := sym.Choice(len(s.V)), sym.Choice(len(s.V))
	c, e := w.base(), w.base()
	c[k], e[k] = i, j
	w.tag(k, i, j)
	w.conv(w.SQL(c), w.SQL(e))
}

func HBundleMy() { bundled(kit.My) }
func HBundlePg() { bundled(kit.Pg) }
func HBundleMs() { bundled(kit.Ms) }

// two: transitions of two slots at once, over the first n variants of each.
func two(d kit.Dialect, n int) {
	w := NewWide(d)
	k := sym.Choice(len(w.S) - 1)
	l := k + 1 + sym.Choice(len(w.S)-k-1)
	c, e := w.base(), w.base()
	var onC []string
	for _, m := range []int{k, l} {
		s := w.S[m]
		x := len(s.V)
		if x > n {
			x = n
		}
		i, j := sym.Choice(x), sym.Choice(x)
		cl := w.class(s.Tag, s.L[i], s.L[j])
		sym.Assume(cl == "")
		sym.Tag(s.Tag + ": " + s.L[i] + " -> " + s.L[j])
		c[m], e[m] = i, j
		if w.usesC(m, i) || w.usesC(m, j) {
			onC = append(onC, s.Tag)
		}
	}
	sym.Assume(!w.pairBad(k, l, e))
	// The same column under two slots is another change of type; the dialects that
	// support them have known defects with key columns only, and the numbers of an
	// identity column are not exported.
	sym.Assume(len(onC) < 2 || d == kit.My || d == kit.Pg && !oneOf(onC[0], "key column", "check") && !oneOf(onC[1], "key column") && !(oneOf(onC[0], "identity") && oneOf(onC[1], "identity options")))
	w.conv(w.SQL(c), w.SQL(e))
}

func HConv2My()   { two(kit.My, 3) }
func HConv2Pg()   { two(kit.Pg, 3) }
func HConv2Lite() { two(kit.Lite, 3) }
func HConv2Ms()   { two(kit.Ms, 3) }
func HConv4My()   { two(kit.My, 5) }
func HConv4Pg()   { two(kit.Pg, 5) }
func HConv4Lite() { two(kit.Lite, 6) }
func HConv4Ms()   { two(kit.Ms, 5) }

func HConvMy()   { one(kit.My) }
func HConvPg()   { one(kit.Pg) }
func HConvLite() { one(kit.Lite) }
func HConvMs()   { one(kit.Ms) }

func (w *Wide) mysql() {
	x, y, z := kit.Digits(2), kit.Digits(2), kit.Name(2)
	sym.Assume(x != y)
	q := "'" + z + "'"
	w.col("integer", "absent", "", "int", "int", "bigint", "bigint", "unsigned", "int unsigned", "not null", "int NOT NULL", "default", "int DEFAULT "+x, "other default", "int DEFAULT "+y,
		"not null default", "int NOT NULL DEFAULT "+x, "default null", "int DEFAULT NULL", "negative default", "int DEFAULT -"+x, "length", "int(9)", "comment", "int COMMENT 'x'")
	w.col("text", "absent", "", "varchar", "varchar(20)", "longer", "varchar(30)", "not null", "varchar(20) NOT NULL", "default", "varchar(20) DEFAULT "+q, "other default", "varchar(20) DEFAULT 'x'",
		"empty default", "varchar(20) DEFAULT ''", "charset", "varchar(20) CHARACTER SET latin1", "collate", "varchar(20) COLLATE utf8mb4_bin", "text", "text", "char", "char(20)", "binary", "varbinary(20)", "mediumtext", "mediumtext")
	w.col("other types", "absent", "", "enum", "enum('x', "+q+")", "other enum", "enum('x', "+q+", 'z')", "enum default", "enum('x', "+q+") DEFAULT 'x'", "decimal", "decimal(5,2)", "decimal scale", "decimal(5,3)", "decimal default", "decimal(5,2) DEFAULT 1.50",
		"float", "float", "double", "double", "boolean", "boolean", "boolean default", "boolean DEFAULT 1", "bit", "bit(1)", "bit default", "bit(1) DEFAULT b'1'", "json", "json", "blob", "blob", "date", "date")
	w.col("time", "absent", "", "datetime", "datetime", "precision", "datetime(6)", "now", "datetime DEFAULT CURRENT_TIMESTAMP", "on update", "datetime DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP", "not null", "datetime NOT NULL DEFAULT CURRENT_TIMESTAMP",
		"only on update", "datetime ON UPDATE CURRENT_TIMESTAMP", "precise now", "datetime(3) DEFAULT CURRENT_TIMESTAMP(3)", "time", "time", "precise time", "time(3)", "no fraction", "datetime(0)")
	w.col("key column", "absent", "", "plain", "int NOT NULL", "unique", "int NOT NULL UNIQUE", "unique key", "int NOT NULL UNIQUE KEY", "primary", "int NOT NULL PRIMARY KEY", "nullable unique", "int UNIQUE")
	w.slot("auto increment", 'k', "none", "KEY "+w.I+" ("+w.A+")", "primary key", "PRIMARY KEY ("+w.A+"), KEY "+w.I+" ("+w.A+")")
	w.slot("primary key", 'k', "none", "", "a", "PRIMARY KEY ("+w.A+")", "b", "PRIMARY KEY ("+w.B+")", "a b", "PRIMARY KEY ("+w.A+", "+w.B+")", "b a", "PRIMARY KEY ("+w.B+", "+w.A+")")
	ix := []string{"none", ""}
	for _, m := range []string{"KEY", "UNIQUE KEY"} {
		for _, c := range [][2]string{{"a", w.A}, {"b", w.B}, {"a b", w.A + ", " + w.B}, {"b a", w.B + ", " + w.A}, {"a desc", w.A + " DESC"}} {
			ix = append(ix, m+" "+c[0], m+" "+w.I+" ("+c[1]+")")
		}
	}
	ix = append(ix, "comment", "KEY "+w.I+" ("+w.A+") COMMENT 'x'", "key block size", "KEY "+w.I+" ("+w.A+") KEY_BLOCK_SIZE "+x)
	w.slot("index", 'k', ix...)
	w.slot("index statement", 's', "none", "", "a", "CREATE INDEX "+w.I+" ON "+w.T+" ("+w.A+")", "b", "CREATE INDEX "+w.I+" ON "+w.T+" ("+w.B+")", "unique a", "CREATE UNIQUE INDEX "+w.I+" ON "+w.T+" ("+w.A+")", "add index a", "ALTER TABLE "+w.T+" ADD INDEX "+w.I+" ("+w.A+")",
		"add unique index b", "ALTER TABLE "+w.T+" ADD UNIQUE INDEX "+w.I+" ("+w.B+")", "a desc", "CREATE INDEX "+w.I+" ON "+w.T+" ("+w.A+" DESC)")
	fk := []string{"none", ""}
	for _, o := range []string{"", " ON DELETE CASCADE", " ON DELETE SET NULL", " ON UPDATE CASCADE", " ON DELETE SET NULL ON UPDATE CASCADE", " ON UPDATE SET NULL ON DELETE CASCADE"} {
		fk = append(fk, "e"+o, "CONSTRAINT "+w.F+" FOREIGN KEY ("+w.E+") REFERENCES "+w.P+" ("+w.A+")"+o)
	}
	fk = append(fk, "b", "CONSTRAINT "+w.F+" FOREIGN KEY ("+w.B+") REFERENCES "+w.P+" ("+w.A+")")
	w.slot("foreign key", 'k', fk...)
	w.slot("column order", 'f', "none", "", "first c", w.C+" int", "first c d", w.C+" int, "+w.G+" int", "first d c", w.G+" int, "+w.C+" int", "first d", w.G+" int")
	w.view()
	w.slot("trigger", 's', "none", "", "insert", "CREATE TRIGGER "+w.G+" AFTER INSERT ON "+w.T+" FOR EACH ROW insert into "+w.P+" ("+w.A+") values ("+x+")", "other value", "CREATE TRIGGER "+w.G+" AFTER INSERT ON "+w.T+" FOR EACH ROW insert into "+w.P+" ("+w.A+") values ("+y+")",
		"before", "CREATE TRIGGER "+w.G+" BEFORE INSERT ON "+w.T+" FOR EACH ROW insert into "+w.P+" ("+w.A+") values ("+x+")", "delete", "CREATE TRIGGER "+w.G+" AFTER DELETE ON "+w.T+" FOR EACH ROW insert into "+w.P+" ("+w.A+") values ("+x+")",
		"other table", "CREATE TRIGGER "+w.G+" AFTER INSERT ON "+w.P+" FOR EACH ROW insert into "+w.T+" ("+w.A+") values ("+x+")",
		"update", "CREATE TRIGGER "+w.G+" AFTER UPDATE ON "+w.T+" FOR EACH ROW insert into "+w.P+" ("+w.A+") values ("+x+")", "body update", "CREATE TRIGGER "+w.G+" AFTER INSERT ON "+w.T+" FOR EACH ROW update "+w.P+" set "+w.A+" = "+x+" where "+w.B+" = "+y, "other condition", "CREATE TRIGGER "+w.G+" AFTER INSERT ON "+w.T+" FOR EACH ROW update "+w.P+" set "+w.A+" = "+x+" where "+w.B+" = "+x, "body delete", "CREATE TRIGGER "+w.G+" AFTER INSERT ON "+w.T+" FOR EACH ROW delete from "+w.P+" where "+w.B+" = "+x)
	w.table()
}

// HCharsetMy: character sets and collations of columns, with the table's default in all its spellings.
func HCharsetMy() {
	w := NewWide(kit.My)
	x, y := kit.Digits(2), kit.Digits(2)
	opts := []string{"", " DEFAULT CHARSET=ascii", " CHARSET utf8mb4", " DEFAULT CHARACTER SET cp1251", " CHARACTER SET=utf8mb4", " ENGINE=InnoDB AUTO_INCREMENT=" + x + " DEFAULT CHARSET=ascii", " DEFAULT CHARSET=ascii, ENGINE=InnoDB", " ENGINE=InnoDB DEFAULT CHARSET=ascii COMMENT='x'"}
	cols := []string{"varchar(20)", "varchar(20) BINARY", "varchar(20) CHARACTER SET latin1", "varchar(20) CHARACTER SET latin1 BINARY", "varchar(20) COLLATE utf8mb4_bin", "varchar(20) BINARY NOT NULL DEFAULT '" + y + "'",
		"varchar(20) CHARACTER SET ascii COLLATE ascii_bin", "text BINARY", "char(20) CHARACTER SET UTF8MB4", "char(20) COLLATE UTF8MB4_BIN"}
	o := sym.Choice(len(opts))
	i, j := sym.Choice(len(cols)+1), sym.Choice(len(cols)+1)
	// What BINARY means without a character set in the table only the server knows.
	sym.Assume(!(o == 0 && (j == 2 || j == 6 || j == 8) && (i == 5 || i == 7 || i == 10)))
	t := func(k int) string {
		s := "CREATE TABLE " + w.T + " (" + w.A + " int"
		if k > 0 {
			s += ", " + w.C + " " + cols[k-1]
		}
		return s + ")" + opts[o]
	}
	sym.Tag([]string{"no default", "charset=", "charset", "default character set", "character set=", "several options", "with commas", "with a comment"}[o])
	w.conv(t(i), t(j))
}

func (w *Wide) view() {
	w.slot("view", 's', "none", "", "a", "CREATE VIEW "+w.V+" AS select "+w.A+" from "+w.P, "b", "CREATE VIEW "+w.V+" AS select "+w.B+" from "+w.P, "where", "CREATE VIEW "+w.V+" AS select "+w.A+" from "+w.P+" where "+w.B+" = 'x'", "where upper", "CREATE VIEW "+w.V+" AS select "+w.A+" from "+w.P+" where "+w.B+" = 'X'", "blanks", "CREATE VIEW "+w.V+" AS select "+w.A+"\n  from "+w.P+" where "+w.B+" = 'x  y'", "line break", "CREATE VIEW "+w.V+" AS\nselect "+w.A+" from "+w.P+" where "+w.B+" = 'x\ny'")
}

func (w *Wide) table() {
	w.slot("table", 't', "none", "", "one", "CREATE TABLE "+w.G+" ("+w.A+" int)", "two columns", "CREATE TABLE "+w.G+" ("+w.A+" int, "+w.B+" int)", "other", "CREATE TABLE "+w.G+" ("+w.B+" int)", "second", "CREATE TABLE "+w.G+" ("+w.A+" int);\nCREATE TABLE "+w.H+"x ("+w.A+" int)")
}

func (w *Wide) sqlite() {
	x, z := kit.Digits(2), kit.Name(2)
	w.col("column", "absent", "", "integer", "integer", "default", "integer DEFAULT "+x, "text", "text", "text default", "text DEFAULT '"+z+"'", "not null", "integer NOT NULL DEFAULT "+x)
	w.slot("other column", 'f', "none", "", "c", w.G+" int", "c d", w.G+" int, "+w.H+" int")
	w.slot("name like a system table's", 't', "none", "", "sqlite", "CREATE TABLE sqlite"+w.G+" ("+w.A+" int)")
	w.view()
	w.table()
}

func (w *Wide) postgres() {
	x, y, z := kit.Digits(2), kit.Digits(2), kit.Name(2)
	sym.Assume(x != y)
	q := "'" + z + "'"
	w.col("integer", "absent", "", "integer", "integer", "bigint", "bigint", "smallint", "smallint", "not null", "integer NOT NULL", "default", "integer DEFAULT "+x, "other default", "integer DEFAULT "+y, "not null default", "integer NOT NULL DEFAULT "+x, "array", "integer[]", "int", "int")
	w.col("text", "absent", "", "varchar", "varchar(20)", "longer", "varchar(30)", "character varying", "character varying(20)", "text", "text", "not null", "text NOT NULL", "default", "text DEFAULT "+q, "other default", "text DEFAULT 'x'", "char", "char(20)", "array", "text[]", "varchar default", "varchar(20) DEFAULT "+q)
	w.col("other types", "absent", "", "boolean", "boolean", "boolean default", "boolean DEFAULT true", "other boolean default", "boolean DEFAULT false", "numeric", "numeric(5,2)", "numeric scale", "numeric(5,3)", "date", "date", "uuid", "uuid", "json", "json", "jsonb", "jsonb", "double", "double precision", "real", "real")
	w.col("time", "absent", "", "timestamp", "timestamp", "time zone", "timestamp with time zone", "now", "timestamp DEFAULT CURRENT_TIMESTAMP", "not null", "timestamp NOT NULL", "time", "time", "date", "date")
	w.col("check", "absent", "", "none", "integer", "greater", "integer CHECK ("+w.C+" > "+x+")", "other", "integer CHECK ("+w.C+" > "+y+")", "less", "integer CHECK ("+w.C+" < "+x+")", "no inherit", "integer CHECK ("+w.C+" > "+x+") NO INHERIT")
	w.col("identity", "absent", "", "none", "integer NOT NULL", "always", "integer GENERATED ALWAYS AS IDENTITY", "by default", "integer GENERATED BY DEFAULT AS IDENTITY", "serial", "serial", "bigserial", "bigserial")
	id := []string{"absent", "", "none", "integer NOT NULL"}
	for _, o := range []string{"START WITH #x INCREMENT BY #y", "START #x", "INCREMENT #y", "MINVALUE #x", "MAXVALUE #x", "NO MINVALUE MAXVALUE #x", "MINVALUE 1 NO MAXVALUE", "CACHE #x", "CYCLE", "NO CYCLE CACHE #y", "START WITH 10 MINVALUE 5 MAXVALUE 99 CYCLE", "INCREMENT BY 2 NO MINVALUE NO MAXVALUE CACHE 5 NO CYCLE"} {
		id = append(id, o, "integer GENERATED ALWAYS AS IDENTITY ("+strings.ReplaceAll(strings.ReplaceAll(o, "#x", x), "#y", y)+")")
	}
	w.col("identity options", append(id, "by default", "integer GENERATED BY DEFAULT AS IDENTITY (START WITH "+x+" CYCLE)")...)
	w.col("key column", "absent", "", "plain", "integer NOT NULL", "primary", "integer NOT NULL PRIMARY KEY", "unique", "integer NOT NULL UNIQUE", "nullable", "integer")
	w.slot("primary key", 'k', "none", "", "a", "PRIMARY KEY ("+w.A+")", "b", "PRIMARY KEY ("+w.B+")", "a b", "PRIMARY KEY ("+w.A+", "+w.B+")", "b a", "PRIMARY KEY ("+w.B+", "+w.A+")")
	ix := []string{"none", ""}
	for _, m := range []string{"INDEX", "UNIQUE INDEX"} {
		for _, c := range [][2]string{{"a", w.A}, {"b", w.B}, {"a b", w.A + ", " + w.B}, {"b a", w.B + ", " + w.A}, {"a desc", w.A + " DESC"}} {
			ix = append(ix, m+" "+c[0], "CREATE "+m+" "+w.I+" ON "+w.T+" ("+c[1]+")")
		}
	}
	ix = append(ix, "where", "CREATE INDEX "+w.I+" ON "+w.T+" ("+w.A+") WHERE "+w.B+" > "+x, "where other", "CREATE INDEX "+w.I+" ON "+w.T+" ("+w.A+") WHERE "+w.B+" > "+y, "using", "CREATE INDEX "+w.I+" ON "+w.T+" USING btree ("+w.A+")")
	w.slot("index", 's', ix...)
	fk := []string{"none", ""}
	for _, o := range []string{"", " ON DELETE CASCADE", " ON DELETE SET NULL", " ON UPDATE CASCADE", " ON DELETE SET NULL ON UPDATE CASCADE", " ON DELETE RESTRICT", " ON DELETE NO ACTION"} {
		fk = append(fk, "e"+o, "CONSTRAINT "+w.F+" FOREIGN KEY ("+w.E+") REFERENCES "+w.P+" ("+w.A+")"+o)
	}
	fk = append(fk, "b", "CONSTRAINT "+w.F+" FOREIGN KEY ("+w.B+") REFERENCES "+w.P+" ("+w.A+")")
	w.slot("foreign key", 'k', fk...)
	p := "CREATE POLICY " + w.G + " ON " + w.T + " AS "
	w.slot("policy", 's', "none", "", "plain", p+"PERMISSIVE FOR ALL TO public USING ("+w.A+" = "+x+")", "other", p+"PERMISSIVE FOR ALL TO public USING ("+w.A+" = "+y+")", "restrictive", p+"RESTRICTIVE FOR ALL TO public USING ("+w.A+" = "+x+")",
		"select", p+"PERMISSIVE FOR SELECT TO public USING ("+w.A+" = "+x+")", "role", p+"PERMISSIVE FOR ALL TO "+w.H+" USING ("+w.A+" = "+x+")", "check", p+"PERMISSIVE FOR ALL TO public USING ("+w.A+" = "+x+") WITH CHECK ("+w.B+" = "+x+")", "other check", p+"PERMISSIVE FOR ALL TO public USING ("+w.A+" = "+x+") WITH CHECK ("+w.B+" = "+y+")",
		"only check", p+"PERMISSIVE FOR INSERT TO public WITH CHECK ("+w.B+" = "+x+")", "roles", p+"PERMISSIVE FOR ALL TO abe, Zed USING ("+w.A+" = "+x+")", "roles in another order", p+"PERMISSIVE FOR ALL TO Zed, abe USING ("+w.A+" = "+x+")", "fewer roles", p+"PERMISSIVE FOR ALL TO Zed USING ("+w.A+" = "+x+")",
		"parentheses", p+"PERMISSIVE FOR ALL TO public USING (("+w.A+" = "+x+"))", "parentheses, role", p+"PERMISSIVE FOR ALL TO abe USING (("+w.A+" = "+x+"))", "parentheses, check", p+"PERMISSIVE FOR ALL TO public USING (("+w.A+" = "+x+")) WITH CHECK (("+w.B+" = "+x+"))")
	w.slot("column order", 'f', "none", "", "first c", w.C+" int", "first c d", w.C+" int, "+w.G+" int", "first d", w.G+" int")
	w.view()
	w.table()
}

func (w *Wide) mssql() {
	x, y, z := kit.Digits(2), kit.Digits(2), kit.Name(2)
	sym.Assume(x != y)
	q := "'" + z + "'"
	w.col("integer", "absent", "", "int", "int", "not null", "int NOT NULL", "default", "int DEFAULT "+x, "other default", "int DEFAULT "+y, "named default", "int CONSTRAINT "+w.G+" DEFAULT "+x, "other named default", "int CONSTRAINT "+w.G+" DEFAULT "+y, "not null default", "int NOT NULL DEFAULT "+x, "bigint", "bigint")
	w.col("text", "absent", "", "varchar", "varchar(20)", "longer", "varchar(30)", "default", "varchar(20) DEFAULT "+q, "nvarchar", "nvarchar(20)", "text", "text", "decimal", "decimal(5,2)", "datetime", "datetime", "bit", "bit")
	w.col("check", "absent", "", "none", "int", "check", "int CHECK ("+w.C+" > "+w.A+")", "other", "int CHECK ("+w.C+" > "+w.B+")", "named", "int CONSTRAINT "+w.G+" CHECK ("+w.C+" > "+w.A+")", "replication", "int CHECK NOT FOR REPLICATION ("+w.C+" > "+w.A+")")
	w.col("identity", "absent", "", "none", "int NOT NULL", "identity", "int IDENTITY(1,1)", "other", "int IDENTITY("+x+",2)", "replication", "int IDENTITY(1,1) NOT FOR REPLICATION")
	w.slot("primary key", 'k', "none", "", "a", "CONSTRAINT "+w.N+" PRIMARY KEY ("+w.A+")", "b", "CONSTRAINT "+w.N+" PRIMARY KEY ("+w.B+")", "a b", "CONSTRAINT "+w.N+" PRIMARY KEY ("+w.A+", "+w.B+")", "nonclustered", "CONSTRAINT "+w.N+" PRIMARY KEY NONCLUSTERED ("+w.A+")", "renamed", "CONSTRAINT "+w.G+" PRIMARY KEY ("+w.A+")", "unnamed", "PRIMARY KEY ("+w.A+")")
	ix := []string{"none", ""}
	for _, m := range []string{"INDEX", "UNIQUE INDEX"} {
		for _, c := range [][2]string{{"a", w.A}, {"b", w.B}, {"a b", w.A + ", " + w.B}, {"b a", w.B + ", " + w.A}, {"a desc", w.A + " DESC"}} {
			ix = append(ix, m+" "+c[0], "CREATE "+m+" "+w.I+" ON "+w.T+" ("+c[1]+")")
		}
	}
	c := "INDEX " + w.I + " ON " + w.T + " (" + w.A + ")"
	ix = append(ix, "nonclustered", "CREATE NONCLUSTERED "+c, "clustered", "CREATE CLUSTERED "+c, "include", "CREATE NONCLUSTERED "+c+" INCLUDE ("+w.B+")", "other include", "CREATE NONCLUSTERED "+c+" INCLUDE ("+w.E+")", "two includes", "CREATE NONCLUSTERED "+c+" INCLUDE ("+w.B+", "+w.E+")",
		"where", "CREATE NONCLUSTERED "+c+" WHERE "+w.B+" > "+w.E, "option", "CREATE NONCLUSTERED "+c+" WITH (FILLFACTOR = "+x+")", "other option", "CREATE NONCLUSTERED "+c+" WITH (FILLFACTOR = "+y+")", "pad", "CREATE NONCLUSTERED "+c+" WITH (PAD_INDEX = ON)", "no pad", "CREATE NONCLUSTERED "+c+" WITH (PAD_INDEX = OFF)", "more options", "CREATE NONCLUSTERED "+c+" WITH (PAD_INDEX = ON, FILLFACTOR = "+x+", ALLOW_ROW_LOCKS = OFF)", "other of more options", "CREATE NONCLUSTERED "+c+" WITH (PAD_INDEX = ON, FILLFACTOR = "+x+", ALLOW_ROW_LOCKS = ON)", "partition", "CREATE NONCLUSTERED "+c+" ON "+w.G+"("+w.A+")")
	w.slot("index", 's', ix...)
	ik := []string{"none", ""}
	for _, m := range []string{"INDEX " + w.I, "INDEX " + w.I + " NONCLUSTERED", "INDEX " + w.I + " CLUSTERED", "INDEX " + w.I + " UNIQUE NONCLUSTERED", "INDEX " + w.I + " UNIQUE CLUSTERED"} {
		for _, c := range [][2]string{{"a", w.A}, {"b", w.B}} {
			ik = append(ik, m[len("INDEX "+w.I):]+" "+c[0], m+" ("+c[1]+")")
		}
	}
	for _, o := range []string{"PAD_INDEX = OFF", "PAD_INDEX = ON", "FILLFACTOR = " + x + ", PAD_INDEX = OFF", "STATISTICS_NORECOMPUTE = ON, ALLOW_PAGE_LOCKS = OFF", "STATISTICS_NORECOMPUTE = OFF, ALLOW_PAGE_LOCKS = ON"} {
		ik = append(ik, " NONCLUSTERED a "+strings.ReplaceAll(o, x, "n"), "INDEX "+w.I+" NONCLUSTERED ("+w.A+") WITH ("+o+")")
	}
	w.slot("inline index", 'k', ik...)
	fk := []string{"none", ""}
	for _, o := range []string{"", " ON DELETE CASCADE", " ON DELETE SET NULL", " ON UPDATE CASCADE", " ON DELETE SET NULL ON UPDATE CASCADE", " ON DELETE NO ACTION", " NOT FOR REPLICATION", " ON DELETE CASCADE NOT FOR REPLICATION"} {
		fk = append(fk, "e"+o, "CONSTRAINT "+w.F+" FOREIGN KEY ("+w.E+") REFERENCES "+w.P+" ("+w.A+")"+o)
	}
	fk = append(fk, "b", "CONSTRAINT "+w.F+" FOREIGN KEY ("+w.B+") REFERENCES "+w.P+" ("+w.A+")")
	w.slot("foreign key", 'k', fk...)
	w.slot("column order", 'f', "none", "", "first c", w.C+" int", "first c d", w.C+" int, "+w.G+" int", "first d", w.G+" int")
	w.view()
	w.slot("trigger", 's', "none", "", "insert", "CREATE TRIGGER "+w.G+" ON "+w.T+" AFTER INSERT AS insert into "+w.P+" ("+w.A+") values ("+x+")", "other value", "CREATE TRIGGER "+w.G+" ON "+w.T+" AFTER INSERT AS insert into "+w.P+" ("+w.A+") values ("+y+")",
		"delete", "CREATE TRIGGER "+w.G+" ON "+w.T+" AFTER DELETE AS insert into "+w.P+" ("+w.A+") values ("+x+")", "other table", "CREATE TRIGGER "+w.G+" ON "+w.P+" AFTER INSERT AS insert into "+w.T+" ("+w.A+") values ("+x+")",
		"two statements", "CREATE TRIGGER "+w.G+" ON "+w.T+" AFTER INSERT AS insert into "+w.P+" ("+w.A+") values ("+x+")\ninsert into "+w.P+" ("+w.A+") values ("+x+")", "two other statements", "CREATE TRIGGER "+w.G+" ON "+w.T+" AFTER INSERT AS insert into "+w.P+" ("+w.A+") values ("+x+")\ninsert into "+w.P+" ("+w.A+") values ("+y+")",
		"update", "CREATE TRIGGER "+w.G+" ON "+w.T+" AFTER UPDATE AS insert into "+w.P+" ("+w.A+") values ("+x+")", "body update", "CREATE TRIGGER "+w.G+" ON "+w.T+" AFTER INSERT AS update "+w.P+" set "+w.A+" = "+x+" where "+w.B+" = "+y, "other condition", "CREATE TRIGGER "+w.G+" ON "+w.T+" AFTER INSERT AS update "+w.P+" set "+w.A+" = "+x+" where "+w.B+" = "+x, "body delete", "CREATE TRIGGER "+w.G+" ON "+w.T+" AFTER INSERT AS delete from "+w.P+" where "+w.B+" = "+x)
	w.table()
}

// HOrder4My: the order of the columns, when any of four columns come and go.
func HOrder4My() {
	const n = 4
	w := NewWide(kit.My)
	names := []string{w.A, w.B, w.C, w.E}[:n]
	list := func() string {
		k := sym.Int(1, n)
		s := ""
		used := make([]bool, n)
		for m := 1; m <= n; m++ {
			if m > k {
				break
			}
			i := sym.Choice(n)
			sym.Assume(!used[i])
			used[i] = true
			if s != "" {
				s += ", "
			}
			s += names[i] + " int"
		}
		return "CREATE TABLE " + w.T + " (" + s + ")"
	}
	c := list()
	w.conv(c, list())
}

// typed is a world with a column of any type.
func typed(d kit.Dialect) *Wide {
	var l []string
	switch d {
	case kit.My:
		l = []string{"bit", "bit(8)", "tinyint", "tinyint(1)", "smallint", "mediumint", "int", "integer", "bigint", "int unsigned", "boolean", "bool", "real", "double", "double precision", "double(7,3)", "float", "float(7,3)", "decimal", "decimal(5)", "decimal(10)", "decimal(10,0)", "decimal(5,2)", "numeric", "numeric(5,2)",
			"date", "time", "time(3)", "datetime", "datetime(3)", "timestamp NULL", "timestamp(3) NULL", "year", "char", "char(1)", "char(20)", "character(20)", "varchar(20)", "character varying(20)", "varchar(21)", "binary", "binary(1)", "binary(8)", "varbinary(20)", "text", "tinytext", "mediumtext", "longtext", "blob", "tinyblob", "mediumblob", "longblob", "json", "enum('x', 'y')", "enum('y', 'x')", "set('x', 'y')",
			"geometry", "point", "linestring", "polygon", "geometrycollection", "multipoint", "multilinestring", "multipolygon"}
	case kit.Pg:
		l = []string{"bit", "bit(1)", "bit(8)", "smallint", "integer", "int", "bigint", "real", "double precision", "float", "decimal", "numeric", "decimal(5)", "decimal(5,0)", "numeric(5,2)", "decimal(5,2)", "money", "date", "time", "time without time zone", "time with time zone", "timestamp", "timestamp without time zone", "timestamp with time zone", "time(3)", "timestamp(3)", "timestamp(3) with time zone",
			"bool", "boolean", "char", "char(1)", "char(20)", "character(20)", "varchar", "varchar(20)", "varchar(21)", "character varying", "character varying(20)", "text", "citext", "json", "jsonb", "uuid", "point", "polygon", "integer[]", "text[]", "varchar(20)[]", "serial", "bigserial", "smallserial"}
	case kit.Lite:
		l = []string{"integer", "int", "text", "blob", "real", "numeric", "varchar(20)", "decimal(5,2)", "boolean", "datetime", "date"}
	case kit.Ms:
		l = []string{"bit", "tinyint", "smallint", "int", "integer", "bigint", "real", "float", "decimal", "decimal(5)", "decimal(5,2)", "numeric(5,2)", "money", "smallmoney", "date", "time", "time(3)", "datetime", "datetime2", "datetimeoffset", "datetimeoffset(3)", "smalldatetime", "char", "char(20)", "varchar", "varchar(20)", "nchar(20)", "nvarchar(20)", "ntext", "text", "binary(8)", "varbinary(20)"}
	}
	w := NewWide(d)
	w.S = nil
	lv := []string{"absent", ""}
	for _, t := range l {
		lv = append(lv, t, t)
	}
	w.col("type", lv...)
	return w
}

// types: every change of the type of a column.
func types(d kit.Dialect) {
	w := typed(d)
	n := len(w.S[0].V)
	i, j := sym.Choice(n), sym.Choice(n)
	w.tag(0, i, j)
	w.conv(w.SQL([]int{i}), w.SQL([]int{j}))
}

func HTypesMy()   { types(kit.My) }
func HTypesPg()   { types(kit.Pg) }
func HTypesLite() { types(kit.Lite) }
func HTypesMs()   { types(kit.Ms) }

// slots: the export of every feature.
func slots(d kit.Dialect) {
	w := NewWide(d)
	if sym.Choice(2) == 1 {
		w = typed(d)
	}
	k := sym.Choice(len(w.S))
	s := w.S[k]
	i := sym.Choice(len(s.V))
	if s.Tag == "identity options" && i > 1 {
		sym.Tag(s.Tag)
	} else {
		sym.Tag(s.Tag + ": " + s.L[i])
	}
	c := w.base()
	c[k] = i
	c10(d, w.SQL(c), "")
}

func HC10SlotMy()   { slots(kit.My) }
func HC10SlotPg()   { slots(kit.Pg) }
func HC10SlotLite() { slots(kit.Lite) }
func HC10SlotMs()   { slots(kit.Ms) }
