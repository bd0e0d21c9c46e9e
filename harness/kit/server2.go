package kit

import (
	"errors"
	"strconv"
	"strings"
)

func squash(q string) string { return strings.ToLower(strings.Join(strings.Fields(q), " ")) }

func reverse(rows [][]interface{}) [][]interface{} {
	for i, j := 0, len(rows)-1; i < j; i, j = i+1, j-1 {
		rows[i], rows[j] = rows[j], rows[i]
	}
	return rows
}

// pgName prints a name the way PostgreSQL's catalogs do.
func pgName(n string) string {
	ok := len(n) > 0
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c >= 'a' && c <= 'z' || c == '_' || (i > 0 && isDigit(c)) {
			continue
		}
		ok = false
	}
	switch n {
	case "select", "from", "where", "table", "user", "order", "group", "limit", "check", "default", "primary", "references":
		ok = false
	}
	if ok {
		return n
	}
	return `"` + strings.ReplaceAll(n, `"`, `""`) + `"`
}

func pgList(l []string) string {
	s := ""
	for i, n := range l {
		if i > 0 {
			s += ", "
		}
		s += pgName(n)
	}
	return s
}

var pgTypes = map[string]string{
	"int": "integer", "serial": "integer", "bigserial": "bigint", "smallserial": "smallint",
	"varchar": "character varying", "char": "character", "decimal": "numeric",
	"timestamp": "timestamp without time zone", "time": "time without time zone",
}

func pgType(c *Col) string {
	t := c.Type
	if x, ok := pgTypes[t]; ok {
		t = x
	}
	if c.TZ {
		t = c.Type + " with time zone"
	}
	return t
}

// formatType is format_type(atttypid, atttypmod).
func formatType(c *Col) string {
	l := ""
	if c.Len != "" {
		l = "(" + c.Len
		if c.Scale != "" {
			l += "," + c.Scale
		}
		l += ")"
	}
	ty := pgType(c)
	if strings.HasPrefix(ty, "time") {
		i := strings.IndexByte(ty, ' ')
		ty = ty[:i] + l + ty[i:]
	} else {
		ty += l
	}
	if c.Array {
		ty += "[]"
	}
	return ty
}

func pgDefault(t *Table, c *Col) interface{} {
	if c.serl {
		return "nextval('" + t.Name + "_" + c.Name + "_seq'::regclass)"
	}
	d := c.Def
	switch {
	case d == "":
		return nil
	case d[0] == '\'':
		ty := pgType(c)
		if ty == "character" {
			ty = "bpchar"
		}
		return "'" + strings.ReplaceAll(d[1:len(d)-1], "'", "''") + "'::" + ty
	case d[0] == '-':
		return "'" + strings.ReplaceAll(d, " ", "") + "'::" + pgType(c)
	case d == "current_timestamp":
		return "CURRENT_TIMESTAMP"
	}
	return strings.ReplaceAll(d, " ", "")
}

func pgRule(s string) string {
	if s == "" {
		return "NO ACTION"
	}
	return s
}

func pgArgs(args []interface{}) (string, string) {
	if len(args) != 2 {
		bad("wrong number of arguments")
	}
	a, ok := args[0].(string)
	b, ok2 := args[1].(string)
	if !ok || !ok2 {
		bad("argument type")
	}
	return a, b
}

func (db *DB) catPg(q string, args []interface{}) ([]string, [][]interface{}, error) {
	q = squash(q)
	has := func(s string) bool { return strings.Contains(q, s) }
	var rows [][]interface{}
	switch {
	case has("from information_schema.tables") && has("pg_views"):
		if !has("'view'") {
			bad("views query")
		}
		for _, v := range db.Views {
			for _, o := range db.Views {
				if o == v || o.Name == v.Name && !has("table_schema = schemaname") {
					rows = append(rows, []interface{}{v.Schema, v.Name, " " + strings.ReplaceAll(o.Raw, " from ", "\n   FROM ") + ";"})
				}
			}
		}
		return colsN(3), rows, nil
	case has("from information_schema.tables"):
		sys := !has("not in ('information_schema', 'pg_catalog')")
		buf := !has("table_name != 'pg_buffercache'")
		if sys {
			rows = append(rows, []interface{}{"pg_catalog", "pg_class"})
		}
		if buf && sys {
			rows = append(rows, []interface{}{"public", "pg_buffercache"})
		}
		for _, t := range db.Tables {
			rows = append(rows, []interface{}{t.Schema, t.Name})
		}
		if !has("table_type = 'base table'") {
			for _, v := range db.Views {
				rows = append(rows, []interface{}{v.Schema, v.Name})
			}
		}
		return colsN(2), rows, nil
	case has("from pg_attribute"):
		s, n := pgArgs(args)
		format := ""
		if i := strings.Index(q, "s.data_type in ("); i >= 0 {
			format = q[i:]
			format = format[:strings.IndexByte(format, ')')]
		}
		if t := db.T(s, n); t != nil {
			for _, c := range t.Cols {
				null := "YES"
				if c.NotNull {
					null = "NO"
				}
				var ln, chk, id interface{}
				if (c.Type == "varchar" || c.Type == "char" || c.Type == "bit") && !c.Array {
					if c.Len != "" {
						ln = c.Len
					} else if c.Type == "char" {
						ln = "1"
					}
				}
				ty := pgType(c)
				data := ty
				if c.Array {
					data = "array"
				} else if c.Type == "citext" {
					data = "user-defined"
				}
				if strings.Contains(format, "'"+data+"'") {
					ty = formatType(c)
				} else {
					ty = data
				}
				uniq := false
				for _, x := range t.Idxs {
					if x.Unique && x.Constraint && !x.Primary {
						for _, k := range x.Cols {
							if k.Name == c.Name {
								uniq = true
							}
						}
					}
				}
				if c.Check != nil {
					k := "CHECK (" + c.Check.Raw + ")"
					if c.Check.NoInherit {
						k += " NO INHERIT"
					}
					chk = k
				}
				if c.Identity != "" {
					id = c.Identity
				}
				rows = append(rows, []interface{}{c.Name, pgDefault(t, c), null, ln, ty, uniq, chk, id})
				for _, u := range db.Tables {
					if u != t && u.Name == t.Name && u.Col(c.Name) != nil && !has("s.table_schema = n.nspname") {
						// information_schema.columns of the other schema's table
						rows = append(rows, rows[len(rows)-1])
					}
				}
			}
		}
		if !has("order by f.attnum") {
			rows = reverse(rows)
		}
		return colsN(8), rows, nil
	case has("from pg_indexes"):
		s, n := pgArgs(args)
		if t := db.T(s, n); t != nil {
			for _, x := range t.Idxs {
				d := "CREATE "
				if x.Unique {
					d += "UNIQUE "
				}
				m := x.Method
				if m == "" {
					m = "btree"
				}
				d += "INDEX " + pgName(x.Name) + " ON " + pgName(t.Schema) + "." + pgName(t.Name) + " USING " + m + " ("
				for i, k := range x.Cols {
					if i > 0 {
						d += ", "
					}
					d += pgName(k.Name)
					if k.Desc {
						d += " DESC"
					}
				}
				d += ")"
				if x.Where != "" {
					d += " WHERE (" + x.Where + ")"
				}
				rows = append(rows, []interface{}{x.Name, d})
			}
		}
		return colsN(2), rows, nil
	case has("constraint_type = 'primary key'"):
		s, n := pgArgs(args)
		if t := db.T(s, n); t != nil && t.PK() != nil {
			for _, u := range db.Tables {
				if u == t || u.PK() != nil && u.PK().Name == t.PK().Name && !has("tc.table_schema = kcu.table_schema") {
					for _, k := range u.PK().Cols {
						rows = append(rows, []interface{}{t.Schema, t.PK().Name, t.Name, k.Name})
					}
				}
			}
		}
		if !has("order by kcu.ordinal_position") {
			rows = reverse(rows)
		}
		return colsN(4), rows, nil
	case has("constraint_type = 'foreign key'"):
		s, n := pgArgs(args)
		if t := db.T(s, n); t != nil {
			for _, f := range t.FKs {
				rs, rn := "public", f.RefTable
				if i := strings.IndexByte(rn, '.'); i >= 0 {
					rs, rn = rn[:i], rn[i+1:]
				}
				cols := append([]string{}, f.Cols...)
				for _, u := range db.Tables {
					for _, g := range u.FKs {
						if u != t && g.Name == f.Name && !(has("tc.table_schema = kcu.table_schema") && has("tc.table_name = kcu.table_name")) {
							cols = append(cols, g.Cols...)
						}
					}
				}
				for _, c := range cols {
					for _, rc := range f.RefCols {
						rows = append(rows, []interface{}{t.Schema, f.Name, t.Name, c, rs, rn, rc, pgRule(f.OnUpdate), pgRule(f.OnDelete)})
					}
				}
			}
		}
		return colsN(9), rows, nil
	case has("from pg_policies"):
		s, n := pgArgs(args)
		if t := db.T(s, n); t != nil {
			for _, y := range t.Policies {
				var u, c interface{}
				if y.hasUsing {
					u = "(" + y.usingRaw + ")"
				}
				if y.hasCheck {
					c = "(" + y.checkRaw + ")"
				}
				rows = append(rows, []interface{}{y.Name, y.Permissive, "{" + strings.Join(y.Roles, ",") + "}", y.Cmd, u, c})
			}
		}
		return colsN(6), rows, nil
	}
	return nil, nil, errors.New("query not understood")
}

// msExpr prints an expression the way SQL Server stores it.
func msExpr(ts []Tok) string {
	s := ""
	for i, t := range ts {
		switch t.K {
		case 'n':
			if i > 0 && ts[i-1].K == 'p' && ts[i-1].S == "-" {
				s = s[:len(s)-1] + "(-" + t.S + ")"
			} else {
				s += "(" + t.S + ")"
			}
		case 's':
			s += "'" + strings.ReplaceAll(t.S, "'", "''") + "'"
		case 'q':
			s += "[" + t.S + "]"
		case 'w':
			switch t.L {
			case "and", "or", "not", "in", "like", "is", "null", "between":
				s += " " + strings.ToUpper(t.L) + " "
			default:
				s += "[" + t.S + "]"
			}
		default:
			s += t.S
		}
	}
	return s
}

// msNorm drops the parentheses SQL Server puts around numbers.
func msNorm(ts []Tok) []Tok {
	var out []Tok
	for i := 0; i < len(ts); i++ {
		if ts[i].K == 'p' && ts[i].S == "(" {
			if i+2 < len(ts) && ts[i+1].K == 'n' && ts[i+2].S == ")" {
				out = append(out, ts[i+1])
				i += 2
				continue
			}
			if i+3 < len(ts) && ts[i+1].S == "-" && ts[i+2].K == 'n' && ts[i+3].S == ")" {
				out = append(out, ts[i+1], ts[i+2])
				i += 3
				continue
			}
		}
		out = append(out, ts[i])
	}
	return out
}

func msDefault(d string) string {
	switch {
	case d == "":
		return "(NULL)"
	case d[0] == '\'':
		return "('" + strings.ReplaceAll(d[1:len(d)-1], "'", "''") + "')"
	case d[0] == '-' || isDigit(d[0]):
		return "((" + strings.ReplaceAll(d, " ", "") + "))"
	}
	return "(" + strings.ReplaceAll(d, " ", "") + ")"
}

// msPrec is the precision and scale sys.columns has for a column.
func msPrec(c *Col) (string, string) {
	or := func(s, d string) string {
		if s == "" {
			return d
		}
		return s
	}
	switch c.Type {
	case "decimal", "numeric":
		return or(c.Len, "18"), or(c.Scale, "0")
	case "time", "datetime2", "datetimeoffset":
		return "0", or(c.Len, "7")
	case "int":
		return "10", "0"
	}
	return "0", "0"
}

var msBytes = map[string]string{"int": "4", "bigint": "8", "smallint": "2", "tinyint": "1", "bit": "1", "datetime": "8", "text": "16"}

// opt is the value of an index option with SQL Server's default.
func (x *Idx) opt(name, def string) string {
	for _, o := range x.Opts {
		if strings.HasPrefix(o, name+" = ") {
			return o[len(name)+3:]
		}
	}
	return def
}

func msTarget(q string) (string, string) {
	i := strings.Index(q, "OBJECT_ID('")
	if i < 0 {
		bad("catalog query without table")
	}
	q = q[i+len("OBJECT_ID('"):]
	j := strings.IndexByte(q, '\'')
	if j < 0 {
		bad("catalog query without table")
	}
	var n []string
	for _, t := range Lex(Ms, q[:j]) {
		if t.K == 'w' || t.K == 'q' {
			n = append(n, t.S)
		}
	}
	if len(n) != 2 {
		bad("catalog query without table")
	}
	return n[0], n[1]
}

func (db *DB) catMs(q string, args []interface{}) ([]string, [][]interface{}, error) {
	l := squash(q)
	has := func(s string) bool { return strings.Contains(l, s) }
	var rows [][]interface{}
	switch {
	case has("from sys.views"):
		for _, v := range db.Views {
			rows = append(rows, []interface{}{v.Name, v.SQL})
		}
		return colsN(2), rows, nil
	case has("from sys.triggers"):
		for _, g := range db.Triggers {
			rows = append(rows, []interface{}{g.SQL})
		}
		return colsN(1), rows, nil
	case has("from sys.objects"):
		for _, t := range db.Tables {
			rows = append(rows, []interface{}{t.Schema, t.Name})
		}
		if !has("type = 'u'") {
			for _, v := range db.Views {
				rows = append(rows, []interface{}{v.Schema, v.Name})
			}
		}
		return colsN(2), rows, nil
	case has("from sys.columns"):
		s, n := msTarget(q)
		if t := db.T(s, n); t != nil {
			for _, c := range t.Cols {
				ln := c.Len
				if ln == "" {
					ln = msBytes[c.Type]
				}
				if ln == "" {
					ln = "1"
				}
				if ln == "max" {
					ln = "-1"
				}
				if (c.Type == "nvarchar" || c.Type == "nchar") && ln != "-1" {
					if k, err := strconv.Atoi(ln); err == nil {
						ln = strconv.Itoa(2 * k)
					}
				}
				var seed, incr, nfr, dn, dv, cn, cd, cnfr interface{}
				did := "0"
				if c.Identity != "" {
					p := strings.Split(c.Seq, " , ")
					seed, incr, nfr = p[0], p[1], c.IdentNFR
				}
				if c.DefName != "" {
					did, dn, dv = "99", c.DefName, msDefault(c.Def)
				}
				if c.Check != nil {
					cn, cd, cnfr = c.Check.Name, "("+c.Check.Raw+")", c.Check.NFR
				}
				prec, scale := msPrec(c)
				r := []interface{}{c.Name, c.Type, ln}
				if has("c.precision") {
					r = append(r, prec, scale)
				}
				rows = append(rows, append(r, !c.NotNull, c.Identity != "", seed, incr, nfr, did, dn, dv, cn, cd, cnfr))
			}
		}
		if !has("order by c.column_id") {
			rows = reverse(rows)
		}
		if has("c.precision") {
			return colsN(16), rows, nil
		}
		return colsN(14), rows, nil
	case has("from sys.indexes") && has("sys.index_columns"):
		s, n := msTarget(q)
		if t := db.T(s, n); t != nil {
			for _, x := range t.Idxs {
				for _, c := range x.Cols {
					rows = append(rows, []interface{}{x.Name, c.Name, c.Desc, false})
				}
				for _, c := range x.Include {
					rows = append(rows, []interface{}{x.Name, c, false, true})
				}
			}
		}
		if !has("ic.key_ordinal") && !has("ic.index_column_id") {
			rows = reverse(rows)
		}
		return colsN(4), rows, nil
	case has("from sys.indexes"):
		s, n := msTarget(q)
		if t := db.T(s, n); t != nil {
			for _, x := range t.Idxs {
				td := "NONCLUSTERED"
				if x.Clust {
					td = "CLUSTERED"
				}
				on := func(name, def string) bool { return x.opt(name, def) == "on" }
				rows = append(rows, []interface{}{x.Name, x.Primary, x.Unique, td,
					on("pad_index", "off"), x.opt("fillfactor", "0"), on("ignore_dup_key", "off"),
					on("statistics_norecompute", "off"), on("statistics_incremental", "off"),
					on("allow_row_locks", "on"), on("allow_page_locks", "on")})
			}
		}
		return colsN(11), rows, nil
	case has("from sys.foreign_keys"):
		s, n := msTarget(q)
		if t := db.T(s, n); t != nil {
			for _, f := range t.FKs {
				for i := range f.Cols {
					rs, rn := "dbo", f.RefTable
					if j := strings.IndexByte(rn, '.'); j >= 0 {
						rs, rn = rn[:j], rn[j+1:]
					}
					r := []interface{}{f.Name, f.Cols[i]}
					if has("object_schema_name(f.referenced_object_id)") {
						r = append(r, rs)
					}
					rows = append(rows, append(r, rn, f.RefCols[i],
						strings.ReplaceAll(pgRule(f.OnUpdate), " ", "_"), strings.ReplaceAll(pgRule(f.OnDelete), " ", "_"), f.NFR))
				}
			}
		}
		if has("object_schema_name(f.referenced_object_id)") {
			return colsN(8), rows, nil
		}
		return colsN(7), rows, nil
	}
	return nil, nil, errors.New("query not understood")
}
