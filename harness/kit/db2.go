package kit

import "strings"

func (p *ps) view(orReplace bool) {
	db := p.db
	s, n := p.name()
	p.need(p.w("as"))
	st := p.i
	for p.i < len(p.t) && !p.isp(0, ";") {
		p.i++
	}
	v := &View{Schema: s, Name: n, Def: Canon(p.t[st:p.i]), Raw: raw(db.D, p.t[st:p.i]), SQL: p.sql, toks: p.t[st:p.i]}
	if v.Def == "" {
		bad("view without definition")
	}
	if db.T(s, n) != nil {
		bad("a table of that name already exists")
	}
	if db.D != Lite {
		if why := db.broken(v); why != "" {
			bad("CREATE VIEW: " + why)
		}
	}
	if o := db.V(s, n); o != nil {
		if !orReplace {
			bad("view already exists")
		}
		if db.D == Lite || db.D == Ms {
			bad("CREATE OR REPLACE VIEW is not supported")
		}
		if db.D == Pg {
			was, now := columnsOf(o.toks), columnsOf(v.toks)
			for i, c := range was {
				if i >= len(now) {
					bad("CREATE OR REPLACE VIEW: cannot drop columns")
				}
				if c != now[i] {
					bad("CREATE OR REPLACE VIEW: cannot change a column")
				}
			}
		}
		for i, x := range db.Views {
			if x == o {
				db.Views[i] = v
			}
		}
		return
	}
	if orReplace && (db.D == Lite || db.D == Ms) {
		bad("CREATE OR REPLACE VIEW is not supported")
	}
	db.Views = append(db.Views, v)
}

func (p *ps) policy() {
	db := p.db
	if db.D != Pg {
		bad("policies exist in PostgreSQL only")
	}
	y := &Policy{Name: p.ident(), Permissive: "PERMISSIVE", Cmd: "ALL"}
	p.need(p.w("on"))
	s, n := p.name()
	t := db.T(s, n)
	if t == nil {
		bad("CREATE POLICY: no such table")
	}
	for _, o := range t.Policies {
		if o.Name == y.Name {
			bad("policy already exists")
		}
	}
	if p.w("as") {
		y.Permissive = strings.ToUpper(p.ident())
	}
	if p.w("for") {
		y.Cmd = strings.ToUpper(p.ident())
	}
	if p.w("to") {
		for {
			y.Roles = append(y.Roles, strings.ToLower(p.ident()))
			if !p.p(",") {
				break
			}
		}
	}
	if p.w("using") {
		ts := p.policyExpr()
		y.hasUsing, y.Using, y.usingRaw = true, Canon(ts), raw(db.D, ts)
	}
	if p.w("with", "check") {
		ts := p.policyExpr()
		y.hasCheck, y.Check, y.checkRaw = true, Canon(ts), raw(db.D, ts)
	}
	t.Policies = append(t.Policies, y)
}

func (p *ps) policyExpr() []Tok {
	if p.isp(0, "(") {
		return strip(p.parens())
	}
	st := p.i
	for p.i < len(p.t) && !p.isp(0, ";") && !(p.isw(0, "with") && p.isw(1, "check")) {
		p.i++
	}
	return p.t[st:p.i]
}

func (p *ps) trigger(orAlter bool) {
	db := p.db
	g := &Trigger{SQL: p.sql}
	if i := strings.Index(strings.ToUpper(g.SQL), "CREATE OR ALTER "); orAlter && i >= 0 {
		g.SQL = g.SQL[:i] + "CREATE " + g.SQL[i+len("CREATE OR ALTER "):]
	}
	g.Name = p.ident()
	if p.p(".") {
		g.Name = p.ident()
	}
	word := func(ws ...string) string {
		for _, w := range ws {
			if p.w(w) {
				return strings.ToUpper(w)
			}
		}
		bad("syntax error in trigger")
		return ""
	}
	if db.D == Ms {
		p.need(p.w("on"))
		_, g.Table = p.name()
		g.Time = word("before", "after")
		g.Event = word("insert", "update", "delete")
		p.need(p.w("as"))
	} else {
		if orAlter {
			bad("syntax error: OR ALTER")
		}
		g.Time = word("before", "after")
		g.Event = word("insert", "update", "delete")
		p.need(p.w("on"))
		_, g.Table = p.name()
		p.need(p.w("for", "each", "row"))
	}
	if db.T("", g.Table) == nil {
		bad("CREATE TRIGGER: no such table")
	}
	st := p.i
	for p.i < len(p.t) && !p.isp(0, ";") {
		p.i++
	}
	g.Body, g.Raw = Canon(p.t[st:p.i]), raw(db.D, p.t[st:p.i])
	for i, o := range db.Triggers {
		if o.Name == g.Name {
			if !orAlter {
				bad("trigger already exists")
			}
			db.Triggers[i] = g
			return
		}
	}
	db.Triggers = append(db.Triggers, g)
}

func (p *ps) drop() {
	db := p.db
	switch {
	case p.w("table"):
		s, n := p.name()
		t := db.T(s, n)
		if t == nil {
			bad("DROP TABLE: no such table")
		}
		db.dropTable(t)
	case p.w("view"):
		s, n := p.name()
		v := db.V(s, n)
		if v == nil {
			bad("DROP VIEW: no such view")
		}
		if db.D == Pg && db.viewed(s, n, "") {
			bad("DROP VIEW: another view depends on it")
		}
		var l []*View
		for _, o := range db.Views {
			if o != v {
				l = append(l, o)
			}
		}
		db.Views = l
	case p.w("index"):
		if db.D == My {
			bad("syntax error: DROP INDEX needs a table")
		}
		s, n := p.name()
		var t *Table
		if db.D == Ms {
			p.need(p.w("on"))
			s, tn := p.name()
			t = db.T(s, tn)
			if t == nil {
				bad("DROP INDEX: no such table")
			}
		} else {
			for _, u := range db.Tables {
				if u.Idx(n) != nil && (db.D != Pg || u.Schema == s) {
					t = u
				}
			}
		}
		if t == nil || t.Idx(n) == nil {
			bad("DROP INDEX: no such index")
		}
		if x := t.Idx(n); x.Constraint && x.auto && (db.D == Pg || db.D == Ms) {
			bad("DROP INDEX: the index belongs to a constraint")
		}
		db.dropIdx(t, t.Idx(n))
	case p.w("policy"):
		n := p.ident()
		p.need(p.w("on"))
		s, tn := p.name()
		t := db.T(s, tn)
		if t == nil {
			bad("DROP POLICY: no such table")
		}
		var l []*Policy
		ok := false
		for _, o := range t.Policies {
			if o.Name == n {
				ok = true
			} else {
				l = append(l, o)
			}
		}
		if !ok {
			bad("DROP POLICY: no such policy")
		}
		t.Policies = l
	case p.w("trigger"):
		n := p.ident()
		var l []*Trigger
		ok := false
		for _, o := range db.Triggers {
			if o.Name == n {
				ok = true
			} else {
				l = append(l, o)
			}
		}
		if !ok {
			bad("DROP TRIGGER: no such trigger")
		}
		db.Triggers = l
	default:
		bad("syntax error: DROP")
	}
}

// relations gives the tables and views a view selects from, and its other tokens.
func (db *DB) relations(v *View) (rels [][2]string, rest []Tok) {
	from := false
	for i := 0; i < len(v.toks); i++ {
		t := v.toks[i]
		rest = append(rest, t)
		switch {
		case t.K == 'w' && (t.L == "from" || t.L == "join"):
			from = true
		case from && t.K == 'p' && t.S == ",":
		case t.K == 'w' && (t.L == "where" || t.L == "on" || t.L == "group" || t.L == "order" || t.L == "having"):
			from = false
			continue
		default:
			continue
		}
		q := &ps{db: db, t: v.toks, i: i + 1}
		if !from || q.isp(0, "(") {
			continue
		}
		s, n := q.name()
		rels = append(rels, [2]string{s, n})
		i = q.i - 1
	}
	return rels, rest
}

// viewed: whether a view selects from the table or view (and uses the column).
func (db *DB) viewed(s, n, col string) bool {
	for _, v := range db.Views {
		rels, rest := db.relations(v)
		for _, r := range rels {
			if r[0] == s && r[1] == n && (col == "" || mention(rest, col)) {
				return true
			}
		}
	}
	return false
}

func mention(ts []Tok, n string) bool {
	for _, t := range ts {
		if (t.K == 'w' || t.K == 'q') && t.S == n {
			return true
		}
	}
	return false
}

// used: why a column cannot be dropped or get another type (PostgreSQL).
func (db *DB) used(t *Table, col string) string {
	if db.viewed(t.Schema, t.Name, col) {
		return "a view uses the column"
	}
	for _, y := range t.Policies {
		if mention(Lex(db.D, y.usingRaw+" "+y.checkRaw), col) {
			return "a policy uses the column"
		}
	}
	return ""
}

// columnsOf gives the names of the columns of a query.
func columnsOf(ts []Tok) []string {
	var out []string
	depth, last := 0, ""
	for i, t := range ts {
		switch {
		case t.S == "(" && t.K == 'p':
			depth++
		case t.S == ")" && t.K == 'p':
			depth--
		case depth > 0:
		case i == 0:
		case t.K == 'p' && t.S == ",":
			out = append(out, last)
		case t.K == 'w' && t.L == "from":
			return append(out, last)
		default:
			last = t.S
		}
	}
	return append(out, last)
}

// broken: why a view cannot be evaluated.
func (db *DB) broken(v *View) string {
	for i, t := range v.toks {
		if t.K != 'w' || t.L != "from" {
			continue
		}
		q := &ps{db: db, t: v.toks[i+1:]}
		if q.isp(0, "(") {
			return ""
		}
		s, n := q.name()
		if db.V(s, n) != nil {
			return ""
		}
		u := db.T(s, n)
		if u == nil {
			return "no such table"
		}
		if i == 2 && u.Col(v.toks[1].S) == nil && v.toks[1].K != 'n' && v.toks[1].K != 's' && v.toks[1].K != 'p' {
			return "no such column"
		}
		return ""
	}
	return ""
}

func (db *DB) dropTable(t *Table) {
	if db.D == Pg && db.viewed(t.Schema, t.Name, "") {
		bad("DROP TABLE: a view depends on the table")
	}
	if db.D != Lite {
		for _, u := range db.Tables {
			if u == t {
				continue
			}
			for _, f := range u.FKs {
				if db.refTable(f.RefTable) == t {
					bad("DROP TABLE: referenced by a foreign key")
				}
			}
		}
	}
	var l []*Table
	for _, o := range db.Tables {
		if o != t {
			l = append(l, o)
		}
	}
	db.Tables = l
	var g []*Trigger
	for _, o := range db.Triggers {
		if o.Table != t.Name {
			g = append(g, o)
		}
	}
	db.Triggers = g
}

func (db *DB) dropIdx(t *Table, x *Idx) {
	var l []*Idx
	for _, o := range t.Idxs {
		if o != x {
			l = append(l, o)
		}
	}
	old := t.Idxs
	t.Idxs = l
	why := db.fkKeyless(t)
	if why != "" {
		t.Idxs = old
		bad(why)
	}
	if db.D == My {
		db.checkAuto(t)
	}
}

// fkKeyless tells whether some foreign key lost the index it needs.
func (db *DB) fkKeyless(t *Table) string {
	if db.D == Lite {
		return ""
	}
	if db.D == My {
		for _, f := range t.FKs {
			if !covered(t, f.Cols, false) {
				return "the index is needed by a foreign key"
			}
		}
	}
	for _, u := range db.Tables {
		for _, f := range u.FKs {
			if db.refTable(f.RefTable) == t && !covered(t, f.RefCols, db.D != My) {
				return "the key is referenced by a foreign key"
			}
		}
	}
	return ""
}

func (p *ps) alter() {
	db := p.db
	p.w("only")
	s, n := p.name()
	t := db.T(s, n)
	if t == nil {
		bad("ALTER TABLE: no such table")
	}
	if db.D == Lite && !p.isw(0, "add") && !p.isw(0, "drop") {
		bad("SQLite cannot do this ALTER TABLE")
	}
	switch {
	case p.w("add"):
		p.alterAdd(t)
	case p.w("drop"):
		p.alterDrop(t)
	case db.D == My && (p.w("change", "column") || p.w("change")):
		o := p.ident()
		oc := t.Col(o)
		if oc == nil {
			bad("CHANGE COLUMN: no such column")
		}
		p.replace(t, oc, p.coldef())
	case db.D == My && (p.w("modify", "column") || p.w("modify")):
		c := p.coldef()
		oc := t.Col(c.Name)
		if oc == nil {
			bad("MODIFY COLUMN: no such column")
		}
		p.replace(t, oc, c)
	case (db.D == Pg || db.D == Ms) && (p.w("alter", "column") || p.w("alter")):
		p.alterColumn(t)
	default:
		bad("syntax error: ALTER TABLE")
	}
	if db.D == My {
		db.checkAuto(t)
	}
}

func (p *ps) place(t *Table) (int, bool) {
	if p.w("first") {
		return 0, true
	}
	if p.w("after") {
		a := p.ident()
		for i, c := range t.Cols {
			if c.Name == a {
				return i + 1, true
			}
		}
		bad("AFTER: no such column")
	}
	return -1, false
}

func (p *ps) replace(t *Table, oc, c *Col) {
	db := p.db
	t.collation(c)
	if c.Name != oc.Name && t.Col(c.Name) != nil {
		bad("CHANGE COLUMN: name already used")
	}
	if pk := t.PK(); pk != nil {
		for _, x := range pk.Cols {
			if x.Name == oc.Name {
				c.NotNull = true
			}
		}
	}
	if c.inlinePK && t.PK() != nil {
		bad("CHANGE COLUMN: second primary key")
	}
	pos := 0
	var l []*Col
	for i, o := range t.Cols {
		if o == oc {
			pos = i
		} else {
			l = append(l, o)
		}
	}
	for _, x := range t.Idxs {
		for i := range x.Cols {
			if x.Cols[i].Name == oc.Name {
				x.Cols[i].Name = c.Name
				if x.Cols[i].Len != "" && x.Cols[i].Len == c.Len {
					x.Cols[i].Len = "" // the whole column
				}
			}
		}
	}
	t.Cols = l
	if q, ok := p.place(t); ok {
		pos = q
	}
	db.addCol(t, c, pos)
	if c.inlineUnique || c.inlinePK || (c.Check != nil && c.Check.Name == "") {
		db.colKeys(t, c, "")
	}
}

func (p *ps) alterAdd(t *Table) {
	db := p.db
	if db.D == Ms && p.w("default") {
		p.addDefault(t, "")
		return
	}
	if db.D == Ms && p.isw(0, "constraint") && p.isw(2, "default") {
		p.i++
		n := p.ident()
		p.i++
		p.addDefault(t, n)
		return
	}
	if db.D == Lite && !p.isw(0, "column") {
		bad("SQLite cannot do this ALTER TABLE")
	}
	if p.isw(0, "constraint") && p.isw(2, "check") || p.isw(0, "check") {
		p.addCheck(t)
		return
	}
	if db.D == Ms && p.isw(0, "column") {
		bad("syntax error: ADD COLUMN in SQL Server")
	}
	if !p.isw(0, "column") && p.constraint(t, nil) {
		return
	}
	p.w("column")
	b := p.i
	c := p.coldef()
	if db.D == My {
		t.collation(c)
	}
	raw := p.sql[p.t[b].P:p.t[p.i-1].E]
	if db.D == Lite && (c.inlinePK || c.inlineUnique) {
		bad("SQLite cannot add a key column")
	}
	if db.D == Lite && c.NotNull && c.Def == "" {
		bad("SQLite cannot add a NOT NULL column without default")
	}
	pos := -1
	if db.D == My {
		pos, _ = p.place(t)
	}
	db.addCol(t, c, pos)
	db.colKeys(t, c, "")
	n := 0
	for n < len(t.els) && t.els[n].col != nil {
		n++
	}
	t.els = append(append(append([]el{}, t.els[:n]...), el{c, raw}), t.els[n:]...)
	t.reSQL()
}

func (p *ps) addDefault(t *Table, name string) {
	v := p.deflt()
	p.need(p.w("for"))
	n := p.ident()
	c := t.Col(n)
	if c == nil {
		bad("ADD DEFAULT: no such column")
	}
	if c.Def != "" || c.DefName != "" {
		bad("ADD DEFAULT: the column has a default already")
	}
	c.Def, c.DefName = v, name
	if name == "" {
		c.DefName = "DF__" + t.Name + "__" + n
	}
}

// addCheck: a constraint is attached to the column it names (the only one it mentions).
func (p *ps) addCheck(t *Table) {
	db := p.db
	name := ""
	if p.w("constraint") {
		name = p.ident()
	}
	p.need(p.w("check"))
	k := &Check{Name: name}
	if p.w("not", "for", "replication") {
		k.NFR = true
	}
	ts := strip(p.parens())
	k.set(db.D, ts)
	if p.w("no", "inherit") {
		k.NoInherit = true
	}
	for _, c := range t.Cols {
		if c.Check != nil && c.Check.Name == name {
			bad("check constraint already exists")
		}
	}
	for _, tk := range ts {
		if tk.K == 'w' || tk.K == 'q' {
			if c := t.Col(tk.S); c != nil {
				if c.Check != nil {
					bad("two checks on a column are not modelled")
				}
				c.Check = k
				return
			}
		}
	}
	bad("CHECK mentions no column of the table")
}

func (p *ps) alterDrop(t *Table) {
	db := p.db
	switch {
	case db.D == My && p.w("primary", "key"):
		x := t.PK()
		if x == nil {
			bad("DROP PRIMARY KEY: no primary key")
		}
		db.dropIdx(t, x)
	case db.D == My && p.w("foreign", "key"):
		n := p.ident()
		if t.FK(n) == nil {
			bad("DROP FOREIGN KEY: no such foreign key")
		}
		t.dropFK(n)
	case db.D == My && (p.w("index") || p.w("key")):
		x := t.Idx(p.ident())
		if x == nil {
			bad("DROP INDEX: no such index")
		}
		db.dropIdx(t, x)
	case (db.D == Pg || db.D == Ms) && p.w("constraint"):
		n := p.ident()
		if t.FK(n) != nil {
			t.dropFK(n)
			return
		}
		for _, x := range t.Idxs {
			if x.Constraint && x.Name == n {
				db.dropIdx(t, x)
				return
			}
		}
		for _, c := range t.Cols {
			if c.Check != nil && c.Check.Name == n {
				c.Check = nil
				return
			}
			if db.D == Ms && c.DefName == n {
				c.Def, c.DefName = "", ""
				return
			}
		}
		bad("DROP CONSTRAINT: no such constraint")
	default:
		if !p.w("column") && db.D != My {
			bad("syntax error: ALTER TABLE DROP")
		}
		p.dropCol(t, p.ident())
	}
}

func (t *Table) dropFK(n string) {
	var l []*FK
	for _, f := range t.FKs {
		if f.Name != n {
			l = append(l, f)
		}
	}
	t.FKs = l
}

func (p *ps) dropCol(t *Table, n string) {
	db := p.db
	c := t.Col(n)
	if c == nil {
		bad("DROP COLUMN: no such column")
	}
	if len(t.Cols) == 1 && db.D != Pg {
		bad("DROP COLUMN: the last column")
	}
	uses := func(x *Idx) bool {
		for _, k := range x.Cols {
			if k.Name == n {
				return true
			}
		}
		for _, k := range x.Include {
			if k == n {
				return true
			}
		}
		return false
	}
	switch db.D {
	case Ms:
		if c.DefName != "" {
			bad("DROP COLUMN: a default constraint depends on the column")
		}
		if c.Check != nil {
			bad("DROP COLUMN: a check constraint depends on the column")
		}
		for _, x := range t.Idxs {
			if uses(x) {
				bad("DROP COLUMN: an index depends on the column")
			}
		}
	case Lite:
		for _, x := range t.Idxs {
			if uses(x) {
				bad("DROP COLUMN: the column is a key")
			}
		}
		if db.viewed(t.Schema, t.Name, n) {
			bad("DROP COLUMN: a view uses the column")
		}
		for _, v := range db.Views {
			if why := db.broken(v); why != "" {
				bad("DROP COLUMN: error in a view: " + why)
			}
		}
	case Pg:
		if why := db.used(t, n); why != "" {
			bad("DROP COLUMN: " + why)
		}
		var l []*Idx
		for _, x := range t.Idxs {
			if !uses(x) {
				l = append(l, x)
			}
		}
		t.Idxs = l
	case My:
		var l []*Idx
		for _, x := range t.Idxs {
			var k []IdxCol
			for _, y := range x.Cols {
				if y.Name != n {
					k = append(k, y)
				}
			}
			x.Cols = k
			if len(k) > 0 {
				l = append(l, x)
			}
		}
		t.Idxs = l
	}
	for _, f := range append([]*FK{}, t.FKs...) {
		for _, k := range f.Cols {
			if k == n {
				if db.D == Pg {
					t.dropFK(f.Name)
				} else {
					bad("DROP COLUMN: a foreign key depends on the column")
				}
				break
			}
		}
	}
	if why := db.fkKeyless(t); why != "" {
		bad("DROP COLUMN: " + why)
	}
	var els []el
	for _, e := range t.els {
		if e.col != c {
			els = append(els, e)
		}
	}
	t.els = els
	t.reSQL()
	var l []*Col
	for _, o := range t.Cols {
		if o != c {
			l = append(l, o)
		}
	}
	t.Cols = l
}

func (p *ps) alterColumn(t *Table) {
	db := p.db
	n := p.ident()
	c := t.Col(n)
	if c == nil {
		bad("ALTER COLUMN: no such column")
	}
	if db.D == Ms {
		p.i--
		d := p.coldef()
		c.Type, c.Len, c.Scale, c.NotNull = d.Type, d.Len, d.Scale, d.NotNull
		return
	}
	switch {
	case p.w("type"), p.w("set", "data", "type"):
		q := &ps{db: db, t: append([]Tok{{K: 'q', S: n}}, p.t[p.i:]...)}
		d := q.coldef()
		p.i += q.i - 1
		if d.serl {
			bad("ALTER COLUMN TYPE: serial is not a type")
		}
		if why := db.used(t, n); why != "" {
			bad("ALTER COLUMN TYPE: " + why)
		}
		c.Type, c.Len, c.Scale, c.Array, c.TZ, c.explicitLen = d.Type, d.Len, d.Scale, d.Array, d.TZ, d.explicitLen
	case p.w("set", "not", "null"):
		c.NotNull = true
	case p.w("drop", "not", "null"):
		if pk := t.PK(); pk != nil {
			for _, k := range pk.Cols {
				if k.Name == n {
					bad("DROP NOT NULL: the column is in a primary key")
				}
			}
		}
		if c.Identity != "" {
			bad("DROP NOT NULL: the column is an identity column")
		}
		c.NotNull = false
	case p.w("set", "default", "nextval"):
		p.need(p.p("("))
		x := p.str()
		p.need(p.p(")"))
		c.serl = false
		for _, y := range db.Seqs {
			if x == y {
				c.serl = true
			}
		}
		if !c.serl {
			bad("SET DEFAULT: no such sequence")
		}
		if c.Identity != "" {
			bad("SET DEFAULT: the column is an identity column")
		}
		c.Def = ""
	case p.w("set", "default"):
		if c.Identity != "" {
			bad("SET DEFAULT: the column is an identity column")
		}
		c.Def, c.serl = p.deflt(), false
	case p.w("drop", "default"):
		c.Def, c.serl = "", false
	case p.w("add", "generated"):
		if c.Identity != "" {
			bad("ADD GENERATED: the column is an identity column already")
		}
		if !c.NotNull {
			bad("ADD GENERATED: the column must be NOT NULL")
		}
		if c.Def != "" || c.serl {
			bad("ADD GENERATED: the column has a default")
		}
		c.Identity = p.genKind()
		p.need(p.w("as", "identity"))
		c.Seq = p.seq()
	case p.w("set", "generated"):
		if c.Identity == "" {
			bad("SET GENERATED: not an identity column")
		}
		c.Identity = p.genKind()
	case p.w("drop", "identity"):
		ife := p.w("if", "exists")
		if c.Identity == "" && !ife {
			bad("DROP IDENTITY: not an identity column")
		}
		c.Identity, c.Seq = "", ""
	default:
		bad("syntax error: ALTER COLUMN")
	}
}

func (p *ps) genKind() string {
	if p.w("always") {
		return "ALWAYS"
	}
	p.need(p.w("by", "default"))
	return "BY DEFAULT"
}
