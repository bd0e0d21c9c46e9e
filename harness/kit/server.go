package kit

import (
	"database/sql"
	"errors"
	"strings"
)

// Call is one call the server received.
type Call struct {
	Kind string // query exec begin commit rollback close
	Text string
	InTx bool
	Err  bool
}

// Fault kinds.
const (
	NoFault   = iota
	FaultErr  // the call fails
	FaultScan // a row cannot be scanned
	FaultEnd  // the rows end early with an error
)

// Server is a simulated database server: the catalogs are computed from DB,
// statements are executed on it, and one call can be made to fail.
type Server struct {
	DB      *DB
	Driver  string
	DSN     string
	Log     []Call
	FailAt  int // index of the failing call, counted over all calls (-1 none)
	FailHow int
	n       int
	saved   *DB
	inTx    bool
	Raw     bool   // statements are recorded but not interpreted
	Refused string // why a statement was refused by the reference database
	RefStmt string
	Opened  int
}

// NewServer installs a server for the next sql.Open.
func NewServer(db *DB) *Server {
	s := &Server{DB: db, FailAt: -1}
	sql.VerifOpen = func(driver, dsn string) (sql.VerifServer, error) {
		s.Driver, s.DSN = driver, dsn
		s.Opened++
		return s, nil
	}
	return s
}

func (s *Server) hit() bool {
	s.n++
	return s.n-1 == s.FailAt
}

type badValue struct{}

var errFault = errors.New("injected failure")

func (s *Server) Query(q string, args []interface{}) ([]string, [][]interface{}, error, error) {
	f := s.hit()
	s.Log = append(s.Log, Call{"query", q, s.inTx, f && s.FailHow == FaultErr})
	if f && s.FailHow == FaultErr {
		return nil, nil, nil, errFault
	}
	cols, rows, err := s.DB.catalog(q, args)
	if err != nil {
		return nil, nil, nil, err
	}
	if f && s.FailHow == FaultScan {
		r := make([]interface{}, len(cols))
		for i := range r {
			r[i] = badValue{}
		}
		if len(rows) > 0 {
			rows = rows[:len(rows)-1]
		}
		rows = append(rows, r)
	}
	if f && s.FailHow == FaultEnd {
		if len(rows) > 0 {
			rows = rows[:len(rows)-1]
		}
		return cols, rows, errFault, nil
	}
	return cols, rows, nil, nil
}

func (s *Server) Exec(q string, args []interface{}, inTx bool) error {
	f := s.hit()
	s.Log = append(s.Log, Call{"exec", q, inTx, f})
	if f {
		return errFault
	}
	if s.Raw {
		return nil
	}
	if e := s.DB.Exec(q); e != "" {
		if s.Refused == "" {
			s.Refused, s.RefStmt = e, q
		}
		return errors.New(e)
	}
	return nil
}

func (s *Server) Begin() error {
	f := s.hit()
	s.Log = append(s.Log, Call{"begin", "", false, f})
	if f {
		return errFault
	}
	s.inTx = true
	s.saved = s.DB.Clone()
	return nil
}

func (s *Server) Commit() error {
	f := s.hit()
	s.Log = append(s.Log, Call{"commit", "", true, f})
	s.inTx = false
	if f {
		s.DB = s.saved
		return errFault
	}
	return nil
}

func (s *Server) Rollback() error {
	f := s.hit()
	s.Log = append(s.Log, Call{"rollback", "", true, f})
	s.inTx = false
	s.DB = s.saved
	if f {
		return errFault
	}
	return nil
}

func (s *Server) Close() error {
	s.Log = append(s.Log, Call{Kind: "close"})
	return nil
}

// Writes are the statements received by Exec.
func (s *Server) Writes() []string {
	var l []string
	for _, c := range s.Log {
		if c.Kind == "exec" {
			l = append(l, c.Text)
		}
	}
	return l
}

// Count counts calls of a kind.
func (s *Server) Count(kind string) int {
	n := 0
	for _, c := range s.Log {
		if c.Kind == kind {
			n++
		}
	}
	return n
}

func (db *DB) catalog(q string, args []interface{}) (cols []string, rows [][]interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(execErr); ok {
				err = errors.New("query not understood: " + e.msg)
				return
			}
			panic(r)
		}
	}()
	switch db.D {
	case My:
		return db.catMy(q, args)
	case Lite:
		return db.catLite(q, args)
	case Pg:
		return db.catPg(q, args)
	}
	return db.catMs(q, args)
}

func colsN(n int) []string {
	l := make([]string, n)
	for i := range l {
		l[i] = "c"
	}
	return l
}

func (db *DB) catMy(q string, args []interface{}) ([]string, [][]interface{}, error) {
	p := &ps{db: db, t: Lex(My, q)}
	var rows [][]interface{}
	switch {
	case p.w("show", "full", "tables"):
		wantT, wantV := true, true
		if p.w("where", "table_type") {
			neg := false
			if p.p("!=") || p.p("<>") {
				neg = true
			} else {
				p.need(p.p("="))
			}
			v := strings.ToUpper(p.str())
			wantT, wantV = (v == "BASE TABLE") != neg, (v == "VIEW") != neg
		}
		if wantT {
			for _, t := range db.Tables {
				rows = append(rows, []interface{}{t.Name, "BASE TABLE"})
			}
		}
		if wantV {
			for _, v := range db.Views {
				rows = append(rows, []interface{}{v.Name, "VIEW"})
			}
		}
		return colsN(2), rows, nil
	case p.w("show", "create", "table"):
		n := p.ident()
		if t := db.T("", n); t != nil {
			return colsN(2), [][]interface{}{{t.Name, ShowCreate(t)}}, nil
		}
		if v := db.V("", n); v != nil {
			return colsN(4), [][]interface{}{{v.Name, "CREATE VIEW " + v.Raw, "utf8", "utf8"}}, nil
		}
		return nil, nil, errors.New("no such table")
	case p.w("select", "view_definition", "from"):
		s, n := p.name()
		if strings.ToLower(s+"."+n) != "information_schema.views" {
			bad("unknown catalog")
		}
		p.need(p.w("where"))
		v, here, named := "", false, false
		value := func() string {
			if p.p("?") {
				s, ok := "", false
				if len(args) > 0 {
					s, ok = args[0].(string)
					args = args[1:]
				}
				p.need(ok)
				return s
			}
			return p.str()
		}
		for {
			if p.w("table_schema") {
				p.need(p.p("="))
				p.need((p.w("database") || p.w("schema")) && p.p("(") && p.p(")"))
				here = true
			} else {
				p.need(p.w("table_name"))
				p.need(p.p("="))
				v, named = value(), true
			}
			if !p.w("and") {
				break
			}
		}
		p.need(len(args) == 0)
		if !here {
			// a view of the same name in another database
			rows = append(rows, []interface{}{"select 1 AS `1`"})
		}
		for _, o := range db.Views {
			if o.Name == v || !named {
				rows = append(rows, []interface{}{o.Raw})
			}
		}
		return colsN(1), rows, nil
	case p.w("show", "triggers"):
		for _, g := range db.Triggers {
			rows = append(rows, []interface{}{g.Name, g.Event, g.Table, g.Raw, g.Time, "2020-01-01", "", "root@%", "utf8", "utf8_general_ci", "utf8_general_ci"})
		}
		return colsN(11), rows, nil
	}
	return nil, nil, errors.New("query not understood")
}

// catLite evaluates select <column> from sqlite_master where <conditions>.
func (db *DB) catLite(q string, args []interface{}) ([]string, [][]interface{}, error) {
	p := &ps{db: db, t: Lex(Lite, q)}
	p.need(p.w("select"))
	var sel []string
	for {
		sel = append(sel, strings.ToLower(p.ident()))
		if !p.p(",") {
			break
		}
	}
	p.need(p.w("from"))
	p.need(strings.ToLower(p.ident()) == "sqlite_master")
	type ent struct{ typ, name, tbl, sql string }
	all := []ent{{"table", "sqlite_sequence", "sqlite_sequence", "CREATE TABLE sqlite_sequence(name,seq)"}}
	for _, t := range db.Tables {
		all = append(all, ent{"table", t.Name, t.Name, t.SQL})
	}
	for _, v := range db.Views {
		all = append(all, ent{"view", v.Name, v.Name, v.SQL})
	}
	get := func(e ent, c string) string {
		switch c {
		case "type":
			return e.typ
		case "name":
			return e.name
		case "tbl_name":
			return e.tbl
		case "sql":
			return e.sql
		}
		bad("no such column")
		return ""
	}
	na := 0
	if p.w("where") {
		for {
			c := strings.ToLower(p.ident())
			op := ""
			switch {
			case p.w("not", "like"):
				op = "notlike"
			case p.w("like"):
				op = "like"
			case p.p("="):
				op = "="
			case p.p("!="), p.p("<>"):
				op = "!="
			default:
				bad("operator")
			}
			v := ""
			if p.p("?") {
				if na >= len(args) {
					return nil, nil, errors.New("missing argument")
				}
				s, ok := args[na].(string)
				if !ok {
					return nil, nil, errors.New("argument type")
				}
				v = s
				na++
			} else {
				v = p.str()
			}
			esc := ""
			if (op == "like" || op == "notlike") && p.w("escape") {
				esc = p.str()
				p.need(len(esc) == 1)
			}
			var keep []ent
			for _, e := range all {
				g := get(e, c)
				ok := false
				switch op {
				case "=":
					ok = g == v
				case "!=":
					ok = g != v
				case "like":
					ok = likeM(g, v, esc)
				case "notlike":
					ok = !likeM(g, v, esc)
				}
				if ok {
					keep = append(keep, e)
				}
			}
			all = keep
			if !p.w("and") {
				break
			}
		}
	}
	if na != len(args) {
		return nil, nil, errors.New("sql: wrong number of arguments")
	}
	p.p(";")
	if p.i < len(p.t) {
		bad("end of query")
	}
	var rows [][]interface{}
	for _, e := range all {
		var r []interface{}
		for _, c := range sel {
			r = append(r, get(e, c))
		}
		rows = append(rows, r)
	}
	return colsN(len(sel)), rows, nil
}

// likeM is LIKE of SQLite3: "_" matches a character, "%" any number of them, regardless of the case of letters.
func likeM(s, pat, esc string) bool {
	if pat == "" {
		return s == ""
	}
	switch {
	case esc != "" && len(pat) > 1 && pat[0] == esc[0]:
		return s != "" && fold(s[0]) == fold(pat[1]) && likeM(s[1:], pat[2:], esc)
	case pat == "%":
		return true
	case pat[0] == '%':
		return likeM(s, pat[1:], esc) || s != "" && likeM(s[1:], pat, esc)
	case pat[0] == '_':
		return s != "" && likeM(s[1:], pat[1:], esc)
	}
	return s != "" && fold(s[0]) == fold(pat[0]) && likeM(s[1:], pat[1:], esc)
}

func fold(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c + 32
	}
	return c
}

var myWidth = map[string]string{"int": "11", "bigint": "20", "smallint": "6", "tinyint": "4", "mediumint": "9"}

// ShowCreate is SHOW CREATE TABLE as MySQL 5.7 prints it.
func ShowCreate(t *Table) string {
	var it []string
	for _, c := range t.Cols {
		s := "  `" + c.Name + "` " + c.Type
		if c.Enum != "" {
			s += "(" + strings.ReplaceAll(c.Enum, " ", "") + ")"
		}
		l := c.Len
		if l == "" {
			l = myWidth[c.Type]
		}
		if l != "" {
			s += "(" + l
			if c.Scale != "" {
				s += "," + c.Scale
			}
			s += ")"
		}
		if c.Unsigned {
			s += " unsigned"
		}
		if c.Charset != "" {
			s += " CHARACTER SET " + c.Charset
		}
		if c.Collate != "" {
			s += " COLLATE " + c.Collate
		}
		if c.NotNull {
			s += " NOT NULL"
		}
		if c.AutoInc {
			s += " AUTO_INCREMENT"
		} else if c.Def != "" {
			d := c.Def
			if strings.HasPrefix(d, "current_timestamp") {
				d = "CURRENT_TIMESTAMP" + strings.ReplaceAll(d[len("current_timestamp"):], " ", "")
			} else if d[0] != '\'' && d[0] != 'b' {
				d = "'" + strings.ReplaceAll(d, " ", "") + "'"
			} else if d[0] == 'b' && len(d) > 2 {
				d = "b" + d[2:]
			}
			s += " DEFAULT " + d
		} else if !c.NotNull && c.Type != "text" && c.Type != "blob" {
			s += " DEFAULT NULL"
		}
		if c.OnUpdate != "" {
			s += " ON UPDATE CURRENT_TIMESTAMP"
		}
		if c.Comment != "" {
			s += " COMMENT '" + c.Comment + "'"
		}
		it = append(it, s)
	}
	cols := func(l []IdxCol) string {
		s := ""
		for i, c := range l {
			if i > 0 {
				s += ","
			}
			s += "`" + c.Name + "`"
			if c.Len != "" {
				s += "(" + c.Len + ")"
			}
			if c.Desc {
				s += " DESC"
			}
		}
		return "(" + s + ")"
	}
	opts := func(x *Idx) string {
		s := ""
		if x.Method != "" {
			s += " USING " + strings.ToUpper(x.Method)
		}
		for _, o := range x.Opts {
			if strings.HasPrefix(o, "key_block_size = ") {
				s += " KEY_BLOCK_SIZE=" + o[17:]
			} else if strings.HasPrefix(o, "parser = ") {
				s += " WITH PARSER `" + o[9:] + "`"
			} else if strings.HasPrefix(o, "comment = ") {
				s += " COMMENT " + o[10:]
			}
		}
		return s
	}
	if p := t.PK(); p != nil {
		it = append(it, "  PRIMARY KEY "+cols(p.Cols))
	}
	for pass := 0; pass < 2; pass++ {
		for _, x := range t.Idxs {
			if x.Primary || x.Unique != (pass == 0) {
				continue
			}
			k := "  KEY `"
			if x.Unique {
				k = "  UNIQUE KEY `"
			}
			if x.Kind != "" {
				k = "  " + strings.ToUpper(x.Kind) + " KEY `"
			}
			it = append(it, k+x.Name+"` "+cols(x.Cols)+opts(x))
		}
	}
	for _, f := range t.FKs {
		s := "  CONSTRAINT `" + f.Name + "` FOREIGN KEY (`" + strings.Join(f.Cols, "`, `") + "`) REFERENCES `" + f.RefTable + "` (`" + strings.Join(f.RefCols, "`, `") + "`)"
		if f.OnDelete != "" {
			s += " ON DELETE " + f.OnDelete
		}
		if f.OnUpdate != "" {
			s += " ON UPDATE " + f.OnUpdate
		}
		it = append(it, s)
	}
	return "CREATE TABLE `" + t.Name + "` (\n" + strings.Join(it, ",\n") + "\n) ENGINE=InnoDB DEFAULT CHARSET=" + t.charset()
}
