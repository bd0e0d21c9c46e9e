package kit

import "strings"

// DB is the schema of one database.
type DB struct {
	D        Dialect
	Tables   []*Table
	Views    []*View
	Triggers []*Trigger
	Seqs     []string // quoted names
	auto     int
}
type Table struct {
	Schema, Name string
	Cols         []*Col
	Idxs         []*Idx
	FKs          []*FK
	Policies     []*Policy
	Opts         string
	Charset      string // the default, MySQL
	SQL          string // as created (SQLite)
	els          []el   // its parts
	head, tail   string
}
type el struct {
	col *Col
	sql string
}
type Col struct {
	Name, Type, Len, Scale       string
	Unsigned, Zerofill, AutoInc  bool
	NotNull, Array, TZ           bool
	Def                          string // canonical default, "" = none
	DefName, OnUpdate            string
	Charset, Collate, Enum       string
	Comment                      string
	Check                        *Check
	Identity                     string // ALWAYS, BY DEFAULT, ON (SQL Server)
	Seq                          string
	IdentNFR                     bool
	Refs                         string
	explicitLen                  bool
	inlineUnique, inlinePK, serl bool
	binary                       bool // BINARY: the _bin collation of the character set
}
type Check struct {
	Name, Expr, Raw string
	NoInherit, NFR  bool
	auto            bool
}
type Idx struct {
	Name, Kind             string // Kind: "" fulltext spatial
	Cols                   []IdxCol
	Primary, Unique, Clust bool
	Constraint             bool // made by a UNIQUE/PRIMARY KEY constraint
	Where, Method          string
	Include                []string
	Opts                   []string // name = value, lower case name
	Part                   string
	auto, noClust          bool
}
type IdxCol struct {
	Name, Len string
	Desc      bool
}
type FK struct {
	Name               string
	Cols, RefCols      []string
	RefTable           string
	OnDelete, OnUpdate string
	NFR, auto          bool
}
type Policy struct {
	Name, Permissive, Cmd, Using, Check string
	Roles                               []string
	hasUsing, hasCheck                  bool
	usingRaw, checkRaw                  string
}
type View struct {
	Schema, Name, Def, Raw string
	SQL                    string // the statement
	toks                   []Tok
}
type Trigger struct{ Name, Table, Time, Event, Body, Raw, SQL string }

func NewDB(d Dialect) *DB { return &DB{D: d} }

// Clone copies the database (deep enough for Exec).
func (db *DB) Clone() *DB {
	n := &DB{D: db.D, auto: db.auto}
	for _, t := range db.Tables {
		u := *t
		u.Cols = nil
		for _, c := range t.Cols {
			cc := *c
			u.Cols = append(u.Cols, &cc)
		}
		u.Idxs = nil
		for _, x := range t.Idxs {
			xx := *x
			xx.Cols = append([]IdxCol{}, x.Cols...)
			u.Idxs = append(u.Idxs, &xx)
		}
		u.FKs = append([]*FK{}, t.FKs...)
		u.Policies = append([]*Policy{}, t.Policies...)
		n.Tables = append(n.Tables, &u)
	}
	n.Views = append([]*View{}, db.Views...)
	n.Triggers = append([]*Trigger{}, db.Triggers...)
	return n
}

func (db *DB) defSchema() string {
	switch db.D {
	case Pg:
		return "public"
	case Ms:
		return "dbo"
	}
	return ""
}

// T finds a table.
func (db *DB) T(schema, name string) *Table {
	if schema == "" {
		schema = db.defSchema()
	}
	for _, t := range db.Tables {
		if t.Name == name && t.Schema == schema {
			return t
		}
	}
	return nil
}
func (t *Table) Col(name string) *Col {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}
func (t *Table) Idx(name string) *Idx {
	for _, x := range t.Idxs {
		if !x.Primary && x.Name == name {
			return x
		}
	}
	return nil
}
func (t *Table) PK() *Idx {
	for _, x := range t.Idxs {
		if x.Primary {
			return x
		}
	}
	return nil
}
func (t *Table) FK(name string) *FK {
	for _, x := range t.FKs {
		if x.Name == name {
			return x
		}
	}
	return nil
}
func (db *DB) V(schema, name string) *View {
	if schema == "" {
		schema = db.defSchema()
	}
	for _, v := range db.Views {
		if v.Name == name && v.Schema == schema {
			return v
		}
	}
	return nil
}

// Script executes a whole script on an empty database.
func Script(d Dialect, sql string) (*DB, string) {
	db := NewDB(d)
	for _, s := range SplitTop(d, sql) {
		if e := db.Exec(s); e != "" {
			return nil, e + ": " + s
		}
	}
	return db, ""
}

// Exec executes one statement; the result is "" or why the database refuses it.
func (db *DB) Exec(sql string) (err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(execErr); ok {
				err = e.msg
				return
			}
			panic(r)
		}
	}()
	p := &ps{db: db, t: Lex(db.D, sql), sql: sql}
	for p.p(";") {
	}
	if len(p.t) == 0 {
		bad("empty statement")
	}
	p.stmt()
	for p.p(";") {
	}
	if p.i < len(p.t) {
		bad("syntax error at end of statement")
	}
	return ""
}

type ps struct {
	db  *DB
	t   []Tok
	i   int
	sql string
}

func (p *ps) peek(n int) *Tok {
	if p.i+n < len(p.t) {
		return &p.t[p.i+n]
	}
	return nil
}
func (p *ps) isw(n int, w string) bool {
	t := p.peek(n)
	return t != nil && t.K == 'w' && t.L == w
}
func (p *ps) isp(n int, s string) bool {
	t := p.peek(n)
	return t != nil && t.K == 'p' && t.S == s
}

// w consumes a sequence of words if they are next.
func (p *ps) w(ws ...string) bool {
	for k, w := range ws {
		if !p.isw(k, w) {
			return false
		}
	}
	p.i += len(ws)
	return true
}
func (p *ps) p(s string) bool {
	if p.isp(0, s) {
		p.i++
		return true
	}
	return false
}
func (p *ps) need(ok bool) {
	if !ok {
		bad("syntax error")
	}
}
func (p *ps) ident() string {
	t := p.peek(0)
	if t == nil || (t.K != 'w' && t.K != 'q') {
		bad("syntax error: identifier expected")
	}
	p.i++
	return t.S
}

// name parses [schema.]name.
func (p *ps) name() (string, string) {
	a := p.ident()
	if p.p(".") {
		return a, p.ident()
	}
	return p.db.defSchema(), a
}
func (p *ps) str() string {
	t := p.peek(0)
	if t == nil || t.K != 's' {
		bad("syntax error: string expected")
	}
	p.i++
	return t.S
}
func (p *ps) num() string {
	neg := ""
	if p.p("-") {
		neg = "-"
	}
	t := p.peek(0)
	if t == nil || t.K != 'n' {
		bad("syntax error: number expected")
	}
	p.i++
	return neg + t.S
}

// parens returns the tokens between a balanced pair and consumes it.
func (p *ps) parens() []Tok {
	p.need(p.p("("))
	st, depth := p.i, 1
	for p.i < len(p.t) {
		if p.isp(0, "(") {
			depth++
		} else if p.isp(0, ")") {
			depth--
			if depth == 0 {
				p.i++
				return p.t[st : p.i-1]
			}
		}
		p.i++
	}
	bad("syntax error: unbalanced parentheses")
	return nil
}

// strip removes redundant outer parentheses.
func strip(ts []Tok) []Tok {
	for len(ts) >= 2 && ts[0].K == 'p' && ts[0].S == "(" {
		depth, whole := 0, true
		for i, t := range ts {
			if t.K == 'p' && t.S == "(" {
				depth++
			}
			if t.K == 'p' && t.S == ")" {
				depth--
				if depth == 0 && i < len(ts)-1 {
					whole = false
					break
				}
			}
		}
		if !whole {
			break
		}
		ts = ts[1 : len(ts)-1]
	}
	return ts
}

func raw(d Dialect, ts []Tok) string {
	b := ""
	for i, t := range ts {
		if i > 0 && !(t.K == 'p' && (t.S == ")" || t.S == ",")) && !(ts[i-1].K == 'p' && ts[i-1].S == "(") {
			b += " "
		}
		switch t.K {
		case 's':
			b += "'" + strings.ReplaceAll(t.S, "'", "''") + "'"
		default:
			b += t.S
		}
	}
	return b
}

func (p *ps) cols() []IdxCol {
	p.need(p.p("("))
	var out []IdxCol
	for {
		c := IdxCol{Name: p.ident()}
		if p.p("(") {
			c.Len = p.num()
			p.need(p.p(")"))
		}
		if p.w("desc") {
			c.Desc = true
		} else {
			p.w("asc")
		}
		out = append(out, c)
		if p.p(")") {
			return out
		}
		p.need(p.p(","))
	}
}
func (p *ps) names() []string {
	p.need(p.p("("))
	var out []string
	for {
		out = append(out, p.ident())
		if p.p(")") {
			return out
		}
		p.need(p.p(","))
	}
}

func (p *ps) stmt() {
	switch {
	case p.w("create"):
		p.create()
	case p.w("alter", "table"):
		p.alter()
	case p.w("drop"):
		p.drop()
	default:
		bad("not a schema statement")
	}
}

func (p *ps) create() {
	db := p.db
	orReplace, orAlter := false, false
	if p.w("or", "replace") {
		orReplace = true
	} else if p.w("or", "alter") {
		orAlter = true
	}
	switch {
	case p.w("table"):
		if orReplace || orAlter {
			bad("syntax error")
		}
		p.w("if", "not", "exists")
		s, n := p.name()
		if db.T(s, n) != nil {
			bad("table already exists")
		}
		if db.V(s, n) != nil {
			bad("a view of that name already exists")
		}
		t := &Table{Schema: s, Name: n, SQL: strings.TrimSuffix(p.sql, ";")}
		p.tableBody(t)
		db.Tables = append(db.Tables, t)
	case p.w("view"):
		p.view(orReplace)
	case p.w("policy"):
		p.policy()
	case p.w("trigger"):
		p.trigger(orAlter)
	case db.D == Pg && p.w("sequence"):
		ine := p.w("if", "not", "exists")
		s, n := p.name()
		if p.w("owned", "by") {
			l := []string{p.ident()}
			for p.p(".") {
				l = append(l, p.ident())
			}
			k := len(l)
			sch := db.defSchema()
			if k > 2 {
				sch = l[k-3]
			}
			if k < 2 || db.T(sch, l[k-2]) == nil || db.T(sch, l[k-2]).Col(l[k-1]) == nil {
				bad("CREATE SEQUENCE: no such column")
			}
			if sch != s {
				bad("CREATE SEQUENCE: the table is in another schema")
			}
		}
		x := Q(Pg, s) + "." + Q(Pg, n)
		for _, y := range db.Seqs {
			if x == y && !ine {
				bad("the sequence already exists")
			}
		}
		db.Seqs = append(db.Seqs, x)
	default:
		x := &Idx{}
		if p.w("unique") {
			x.Unique = true
		}
		x.noClust = true
		if p.w("clustered") {
			x.Clust = true
			x.noClust = false
		} else if p.w("nonclustered") {
			x.noClust = false
		}
		p.need(p.w("index"))
		x.Name = p.ident()
		if p.w("using") {
			x.Method = strings.ToLower(p.ident())
		}
		p.need(p.w("on"))
		s, n := p.name()
		t := db.T(s, n)
		if t == nil {
			bad("CREATE INDEX: no such table")
		}
		if p.w("using") {
			x.Method = strings.ToLower(p.ident())
		}
		x.Cols = p.cols()
		if p.w("include") {
			x.Include = p.names()
		}
		if p.w("where") {
			st := p.i
			for p.i < len(p.t) && !p.isp(0, ";") {
				p.i++
			}
			x.Where = Canon(strip(p.t[st:p.i]))
		}
		p.idxOpts(x)
		db.addIdx(t, x)
	}
}

func (p *ps) idxOpts(x *Idx) {
	if p.w("with", "parser") {
		x.Opts = append(x.Opts, "parser = "+p.ident())
	}
	for p.w("using") {
		x.Method = strings.ToLower(p.ident())
	}
	if p.w("key_block_size") {
		p.p("=")
		x.Opts = append(x.Opts, "key_block_size = "+p.num())
	}
	if p.w("comment") {
		x.Opts = append(x.Opts, "comment = '"+p.str()+"'")
	}
	if p.w("with") {
		p.need(p.p("("))
		for {
			o := strings.ToLower(p.ident())
			p.need(p.p("="))
			t := p.peek(0)
			if t == nil {
				bad("syntax error")
			}
			p.i++
			v := t.S
			if t.K == 'w' {
				v = t.L
			}
			x.Opts = append(x.Opts, o+" = "+v)
			if p.p(")") {
				break
			}
			p.need(p.p(","))
		}
	}
	if p.w("on") {
		x.Part = p.ident()
		if p.p("(") {
			x.Part += "(" + p.ident() + ")"
			p.need(p.p(")"))
		}
	}
}

func (db *DB) addIdx(t *Table, x *Idx) {
	for i, c := range x.Cols {
		if k := t.Col(c.Name); db.D == My && k != nil && c.Len != "" && k.Len == c.Len {
			x.Cols[i].Len = "" // the whole column
		}
	}
	if len(x.Cols) == 0 {
		bad("index without columns")
	}
	for i, c := range x.Cols {
		if t.Col(c.Name) == nil {
			bad("index on a column that does not exist")
		}
		for _, e := range x.Cols[:i] {
			if e.Name == c.Name {
				bad("duplicate column in index")
			}
		}
	}
	for _, c := range x.Include {
		if t.Col(c) == nil {
			bad("index includes a column that does not exist")
		}
	}
	if x.Primary {
		if t.PK() != nil {
			bad("table has a primary key already")
		}
		for _, c := range x.Cols {
			t.Col(c.Name).NotNull = true
		}
	} else {
		if t.Idx(x.Name) != nil {
			bad("index already exists")
		}
		if db.D == Pg {
			for _, u := range db.Tables {
				if u.Schema == t.Schema && (u.Idx(x.Name) != nil || u.Name == x.Name) {
					bad("relation already exists")
				}
			}
		}
	}
	if db.D == Ms && x.Clust {
		for _, y := range t.Idxs {
			if y.Clust {
				bad("more than one clustered index")
			}
		}
	}
	t.Idxs = append(t.Idxs, x)
}

func (p *ps) tableBody(t *Table) {
	db := p.db
	p.need(p.p("("))
	t.head = p.sql[:p.t[p.i-1].E]
	var later []func()
	for {
		b := p.i
		var col *Col
		if !p.constraint(t, &later) {
			c := p.coldef()
			col = c
			db.addCol(t, c, -1)
			later = append(later, func() { db.colKeys(t, c, "") })
		}
		t.els = append(t.els, el{col, p.sql[p.t[b].P:p.t[p.i-1].E]})
		if p.p(")") {
			t.tail = p.sql[p.t[p.i-1].P:]
			break
		}
		p.need(p.p(","))
	}
	for _, f := range later {
		f()
	}
	st := p.i
	for p.i < len(p.t) && !p.isp(0, ";") {
		p.i++
	}
	t.Opts = Canon(p.t[st:p.i])
	if db.D == My {
		for i := st; i < p.i; i++ {
			if o := strings.ToLower(p.t[i].S); o == "charset" || o == "set" {
				if i++; i < p.i && p.t[i].S == "=" {
					i++
				}
				t.Charset = strings.ToLower(p.t[i].S)
			}
		}
		for _, c := range t.Cols {
			t.collation(c)
		}
	}
	if db.D == My {
		db.checkAuto(t)
	}
	if len(t.Cols) == 0 {
		bad("table without columns")
	}
}

// reSQL rewrites the stored text after a change (SQLite).
func (t *Table) reSQL() {
	s := t.head
	for i, e := range t.els {
		if i > 0 {
			s += ", "
		}
		s += e.sql
	}
	t.SQL = strings.TrimSuffix(s+t.tail, ";")
}

// collation resolves BINARY.
func (t *Table) collation(c *Col) {
	cs := c.Charset
	if cs == "" {
		cs = t.charset()
	}
	if c.binary {
		c.Collate = cs + "_bin"
	}
	if c.Charset != "" && c.Collate != "" && !strings.HasPrefix(c.Collate, c.Charset+"_") {
		bad("the collation is not one of the character set")
	}
	if i := strings.IndexByte(c.Collate, '_'); c.Collate != "" && (i < 0 || !myCharset[c.Collate[:i]]) {
		bad("unknown collation")
	}
	if c.Collate != "" {
		c.Charset = c.Collate[:strings.IndexByte(c.Collate, '_')]
	}
}

var myCharset = map[string]bool{"latin1": true, "utf8mb4": true, "utf8": true, "ascii": true, "cp1251": true}

func (t *Table) charset() string {
	if t.Charset == "" {
		return "latin1"
	}
	return t.Charset
}

func (db *DB) addCol(t *Table, c *Col, pos int) {
	if t.Col(c.Name) != nil {
		bad("column already exists")
	}
	if pos < 0 || pos >= len(t.Cols) {
		t.Cols = append(t.Cols, c)
		return
	}
	n := append([]*Col{}, t.Cols[:pos]...)
	n = append(n, c)
	t.Cols = append(n, t.Cols[pos:]...)
}

// colKeys makes the indexes a column definition implies.
func (db *DB) colKeys(t *Table, c *Col, _ string) {
	if c.inlinePK {
		x := &Idx{Primary: true, Unique: true, Constraint: true, auto: true, Cols: []IdxCol{{Name: c.Name}}, Clust: db.D == Ms}
		switch db.D {
		case Pg:
			x.Name = t.Name + "_pkey"
		case Ms:
			x.Name = "PK__" + t.Name
		}
		db.addIdx(t, x)
	}
	if c.inlineUnique {
		x := &Idx{Unique: true, Constraint: true, auto: true, Cols: []IdxCol{{Name: c.Name}}, Name: c.Name}
		switch db.D {
		case Pg:
			x.Name = t.Name + "_" + c.Name + "_key"
		case Ms:
			x.Name = "UQ__" + t.Name + "__" + c.Name
		}
		db.addIdx(t, x)
	}
	if c.Check != nil && c.Check.Name == "" {
		c.Check.auto = true
		if db.D == Ms {
			c.Check.Name = "CK__" + t.Name + "__" + c.Name
		} else {
			c.Check.Name = t.Name + "_" + c.Name + "_check"
		}
	}
	if c.Def != "" && db.D == Ms && c.DefName == "" {
		c.DefName = "DF__" + t.Name + "__" + c.Name
	}
	if c.Refs != "" {
		db.addFK(t, &FK{Name: t.Name + "_" + c.Name + "_fkey", Cols: []string{c.Name}, RefTable: c.Refs, auto: true})
	}
}

// checkAuto: MySQL wants at most one AUTO_INCREMENT column and it must be a key.
func (db *DB) checkAuto(t *Table) {
	n := 0
	for _, c := range t.Cols {
		if !c.AutoInc {
			continue
		}
		n++
		ok := false
		for _, x := range t.Idxs {
			if x.Cols[0].Name == c.Name {
				ok = true
			}
		}
		if !ok {
			bad("AUTO_INCREMENT column is not a key")
		}
	}
	if n > 1 {
		bad("more than one AUTO_INCREMENT column")
	}
}

// constraint parses a table-level item other than a column.
func (p *ps) constraint(t *Table, later *[]func()) bool {
	db := p.db
	do := func(f func()) {
		if later != nil {
			*later = append(*later, f)
		} else {
			f()
		}
	}
	cname := ""
	st := p.i
	if p.isw(0, "constraint") {
		p.i++
		if !p.isw(0, "primary") && !p.isw(0, "foreign") && !p.isw(0, "unique") && !p.isw(0, "check") {
			cname = p.ident()
		}
	}
	clust := func(x *Idx) {
		x.noClust = true
		if p.w("clustered") {
			x.Clust = true
			x.noClust = false
		} else if p.w("nonclustered") {
			x.noClust = false
		} else if x.Primary && db.D == Ms {
			x.Clust = true
		}
	}
	switch {
	case p.w("primary", "key"):
		x := &Idx{Primary: true, Unique: true, Constraint: true, Name: cname, auto: cname == ""}
		clust(x)
		x.Cols = p.cols()
		p.idxOpts(x)
		if x.auto {
			switch db.D {
			case Pg:
				x.Name = t.Name + "_pkey"
			case Ms:
				x.Name = "PK__" + t.Name
			}
		}
		do(func() { db.addIdx(t, x) })
		return true
	case p.w("foreign", "key"):
		f := &FK{Name: cname, auto: cname == ""}
		if !p.isp(0, "(") {
			p.ident()
		}
		f.Cols = p.names()
		p.need(p.w("references"))
		rs, rn := p.name()
		f.RefTable = rn
		if rs != db.defSchema() {
			f.RefTable = rs + "." + rn
		}
		if p.isp(0, "(") {
			f.RefCols = p.names()
		}
		for {
			if p.w("on", "delete") {
				f.OnDelete = p.refAction()
			} else if p.w("on", "update") {
				f.OnUpdate = p.refAction()
			} else if p.w("not", "for", "replication") {
				f.NFR = true
			} else {
				break
			}
		}
		do(func() { db.addFK(t, f) })
		return true
	case p.w("check"):
		bad("table-level CHECK is not modelled")
	case cname == "" && db.D != Pg && (p.isw(0, "key") || p.isw(0, "index")), p.isw(0, "unique"), (p.isw(0, "fulltext") || p.isw(0, "spatial")) && db.D == My:
		x := &Idx{Name: cname}
		for {
			if p.w("unique") {
				x.Unique = true
				x.Constraint = true
			} else if p.w("fulltext") {
				x.Kind = "fulltext"
			} else if p.w("spatial") {
				x.Kind = "spatial"
			} else {
				break
			}
		}
		if p.w("key") || p.w("index") {
			if db.D == Pg {
				bad("syntax error")
			}
		} else if db.D == Pg && cname == "" && !p.isp(0, "(") {
			bad("syntax error: PostgreSQL has no named UNIQUE without CONSTRAINT")
		}
		if !p.isp(0, "(") {
			if db.D == Pg {
				bad("syntax error")
			}
			x.Name = p.ident()
		}
		if p.w("unique") {
			x.Unique = true
		}
		clust(x)
		x.Cols = p.cols()
		if x.Name == "" {
			x.auto = true
			x.Name = x.Cols[0].Name
			if db.D == Pg {
				x.Name = t.Name + "_" + x.Cols[0].Name + "_key"
			}
		}
		p.idxOpts(x)
		do(func() { db.addIdx(t, x) })
		return true
	}
	p.i = st
	return false
}

func (p *ps) refAction() string {
	switch {
	case p.w("set", "null"):
		return "SET NULL"
	case p.w("set", "default"):
		return "SET DEFAULT"
	case p.w("no", "action"):
		return ""
	case p.w("cascade"):
		return "CASCADE"
	case p.w("restrict"):
		if p.db.D == My {
			return ""
		}
		return "RESTRICT"
	}
	bad("syntax error: referential action")
	return ""
}

func (db *DB) refTable(name string) *Table {
	s, n := db.defSchema(), name
	if i := strings.IndexByte(name, '.'); i >= 0 {
		s, n = name[:i], name[i+1:]
	}
	return db.T(s, n)
}

func (db *DB) addFK(t *Table, f *FK) {
	if f.Name == "" {
		f.Name = t.Name + "_" + f.Cols[0] + "_fkey"
	}
	if t.FK(f.Name) != nil {
		bad("foreign key already exists")
	}
	for _, c := range f.Cols {
		if t.Col(c) == nil {
			bad("foreign key on a column that does not exist")
		}
	}
	r := db.refTable(f.RefTable)
	if f.RefTable == t.Name {
		r = t
	}
	if r == nil {
		bad("foreign key references a table that does not exist")
	}
	if f.RefCols == nil {
		if r.PK() == nil {
			bad("foreign key references a table without primary key")
		}
		for _, c := range r.PK().Cols {
			f.RefCols = append(f.RefCols, c.Name)
		}
	}
	if len(f.RefCols) != len(f.Cols) {
		bad("foreign key column count")
	}
	for _, c := range f.RefCols {
		if r.Col(c) == nil {
			bad("foreign key references a column that does not exist")
		}
	}
	if !covered(r, f.RefCols, db.D != My) {
		bad("foreign key references columns that are not a key")
	}
	t.FKs = append(t.FKs, f)
	if db.D == My && !covered(t, f.Cols, false) {
		// InnoDB adds an index named after the constraint
		x := &Idx{Name: f.Name, auto: true}
		for _, c := range f.Cols {
			x.Cols = append(x.Cols, IdxCol{Name: c})
		}
		if t.Idx(x.Name) != nil {
			bad("index already exists")
		}
		t.Idxs = append(t.Idxs, x)
	}
}

// covered: some index starts with the columns (exactly, uniquely when strict).
func covered(t *Table, cols []string, strict bool) bool {
	for _, x := range t.Idxs {
		if len(x.Cols) < len(cols) || x.Kind != "" {
			continue
		}
		if strict && (!x.Unique || len(x.Cols) != len(cols)) {
			continue
		}
		ok := true
		for i, c := range cols {
			if x.Cols[i].Name != c {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

var typeAlias = map[string]string{
	"integer": "int", "int4": "int", "int8": "bigint", "character": "char", "character varying": "varchar",
	"bool": "boolean", "numeric": "decimal",
}

// defaultType: other names of types, and lengths that are implied.
func (c *Col) defaultType(d Dialect, ty *string) {
	def := func(n, m string) {
		if c.Len == "" {
			c.Len = n
			if c.Scale == "" {
				c.Scale = m
			}
		} else if c.Scale == "" {
			c.Scale = m
		}
	}
	switch d {
	case Ms:
		switch *ty {
		case "char", "nchar", "varchar", "nvarchar", "binary", "varbinary":
			def("1", "")
		case "decimal":
			def("18", "0")
		case "time", "datetime2", "datetimeoffset":
			def("7", "")
		}
	case My:
		switch *ty {
		case "double precision", "real":
			*ty = "double"
		case "decimal":
			def("10", "0")
		case "bit", "char", "binary":
			def("1", "")
		case "year":
			def("4", "")
		}
	case Pg:
		switch *ty {
		case "float", "float8":
			*ty = "double precision"
		case "bit", "char":
			def("1", "")
		case "decimal":
			if c.Len != "" {
				def("", "0")
			}
		case "tinyint", "mediumint", "double", "datetime", "year", "blob", "binary", "varbinary", "longtext", "mediumtext", "tinytext", "nvarchar", "ntext":
			bad("no such type")
		}
	}
}

func (p *ps) coldef() *Col {
	db := p.db
	c := &Col{Name: p.ident()}
	tt := p.peek(0)
	if tt == nil || tt.K != 'w' {
		if db.D == Lite {
			return c
		}
		bad("syntax error: type expected")
	}
	ty := tt.L
	p.i++
	if ty == "double" && p.w("precision") {
		ty = "double precision"
	}
	if ty == "character" && p.w("varying") {
		ty = "character varying"
	}
	if ty == "enum" || ty == "set" {
		c.Enum = Canon(p.parens())
	} else if p.p("(") {
		c.explicitLen = true
		c.Len = p.num()
		if p.p(",") {
			c.Scale = p.num()
		}
		p.need(p.p(")"))
	}
	if c.Len == "0" && db.D == My && (ty == "datetime" || ty == "timestamp" || ty == "time") {
		c.Len = "" // no fraction
	}
	if db.D == Ms {
		if ty == "numeric" {
			ty = "decimal"
		}
		if ty == "integer" {
			ty = "int"
		}
	} else if a, ok := typeAlias[ty]; ok {
		ty = a
	}
	c.defaultType(db.D, &ty)
	if db.D == My && ty == "boolean" {
		ty = "tinyint"
		c.Len = "1"
	}
	c.Type = ty
	if (ty == "timestamp" || ty == "time") && p.w("with", "time", "zone") {
		c.TZ = true
	} else {
		p.w("without", "time", "zone")
	}
	if db.D == Pg && p.isp(0, "[") {
		p.i++
		p.need(p.p("]"))
		c.Array = true
	}
	if db.D == Pg && (ty == "serial" || ty == "bigserial" || ty == "smallserial") {
		c.NotNull = true
		c.serl = true
	}
	for {
		cname := ""
		st := p.i
		if p.isw(0, "constraint") {
			p.i++
			cname = p.ident()
		}
		switch {
		case p.w("unsigned"):
			c.Unsigned = true
		case p.w("zerofill"):
			c.Zerofill = true
		case p.w("character", "set"):
			c.Charset = strings.ToLower(p.ident())
		case db.D == My && p.w("binary"):
			c.binary = true
		case p.w("collate"):
			c.Collate = strings.ToLower(p.ident())
		case p.w("not", "null"):
			c.NotNull = true
		case p.w("not", "for", "replication"):
			if c.Identity == "" {
				bad("syntax error: NOT FOR REPLICATION")
			}
			c.IdentNFR = true
		case p.w("null"):
			if c.NotNull && !c.serl {
				bad("conflicting NULL/NOT NULL")
			}
			c.NotNull = false
		case p.w("default"):
			c.Def = p.deflt()
			if db.D == My && (c.Def == "true" || c.Def == "false") {
				c.Def = map[string]string{"true": "1", "false": "0"}[c.Def]
			}
			c.DefName = cname
		case p.w("auto_increment"), p.w("autoincrement"):
			c.AutoInc = true
		case p.w("on", "update"):
			c.OnUpdate = p.deflt()
		case p.w("unique", "key"), p.w("unique"):
			c.inlineUnique = true
		case p.w("primary", "key"):
			c.inlinePK = true
			c.NotNull = true
		case p.w("comment"):
			c.Comment = p.str()
		case p.w("check"):
			k := &Check{Name: cname}
			if p.w("not", "for", "replication") {
				k.NFR = true
			}
			k.set(db.D, strip(p.parens()))
			if p.w("no", "inherit") {
				k.NoInherit = true
			}
			c.Check = k
		case p.w("generated", "always", "as", "identity"):
			c.Identity, c.NotNull = "ALWAYS", true
			c.Seq = p.seq()
		case p.w("generated", "by", "default", "as", "identity"):
			c.Identity, c.NotNull = "BY DEFAULT", true
			c.Seq = p.seq()
		case db.D == Ms && p.w("identity"):
			c.Identity, c.NotNull = "ON", true
			c.Seq = "1 , 1"
			if p.isp(0, "(") {
				c.Seq = Canon(p.parens())
			}
		case p.w("references"):
			_, c.Refs = p.name()
			if p.isp(0, "(") {
				p.names()
			}
		default:
			p.i = st
			if c.inlinePK && c.serl {
				c.NotNull = true
			}
			if db.D == My && c.AutoInc {
				c.NotNull = true
			}
			if db.D == My && c.Type == "timestamp" {
				c.explicitLen = true
			}
			return c
		}
	}
}

func (k *Check) set(d Dialect, ts []Tok) {
	if d == Ms {
		ts = msNorm(ts)
		k.Expr, k.Raw = Canon(ts), msExpr(ts)
		return
	}
	k.Expr, k.Raw = Canon(ts), raw(d, ts)
}

// deflt parses a default value into its canonical form ("" when NULL).
// seq are the options of the sequence of an identity column.
func (p *ps) seq() string {
	start, inc, min, max, cache, cycle := "", "1", "", "", "1", ""
	if p.p("(") {
		for !p.p(")") {
			switch {
			case p.w("start", "with"), p.w("start"):
				start = p.num()
			case p.w("increment", "by"), p.w("increment"):
				inc = p.num()
			case p.w("no", "minvalue"):
				min = ""
			case p.w("minvalue"):
				min = p.num()
			case p.w("no", "maxvalue"):
				max = ""
			case p.w("maxvalue"):
				max = p.num()
			case p.w("cache"):
				cache = p.num()
			case p.w("no", "cycle"):
				cycle = ""
			case p.w("cycle"):
				cycle = "cycle"
			default:
				bad("syntax error in sequence options")
			}
		}
	}
	if start == "" {
		start = min
	}
	if start == "" {
		start = "1"
	}
	return start + " " + inc + " " + min + " " + max + " " + cache + " " + cycle
}

func (p *ps) deflt() string {
	ts := p.value()
	if len(ts) == 1 && ts[0].K == 'w' && ts[0].L == "null" {
		return ""
	}
	return Canon(ts)
}

func (p *ps) value() []Tok {
	if p.isp(0, "(") {
		return strip(p.parens())
	}
	st := p.i
	if p.p("-") || p.p("+") {
	}
	t := p.peek(0)
	if t == nil {
		bad("syntax error: value expected")
	}
	p.i++
	if t.K == 'w' {
		if (t.L == "b" || t.L == "x" || t.L == "n") && p.peek(0) != nil && p.peek(0).K == 's' {
			p.i++
		} else if p.isp(0, "(") {
			p.parens()
			if t.L == "current_timestamp" && p.i-st == 3 {
				return p.t[st : st+1]
			}
		}
	} else if t.K == 'p' || t.K == 'q' {
		bad("syntax error: value expected")
	}
	ts := p.t[st:p.i]
	if p.p("::") { // cast: the value is what matters here
		for p.peek(0) != nil && p.peek(0).K == 'w' && !p.isw(0, "not") && !p.isw(0, "null") && !p.isw(0, "check") && !p.isw(0, "unique") && !p.isw(0, "primary") && !p.isw(0, "generated") && !p.isw(0, "references") && !p.isw(0, "constraint") {
			p.i++
		}
	}
	return ts
}
