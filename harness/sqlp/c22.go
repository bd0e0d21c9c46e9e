package sqlp

import (
	"strings"

	"github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
	"github.com/k0kubun/sqldef/zverif/kit"
	"github.com/k0kubun/sqldef/zverif/sym"
)

func reject(err error) {
	if err != nil {
		sym.Dump(err.Error())
		sym.Fail("a statement is rejected")
	}
}

// kindOf is what a statement is.
func kindOf(s sqlparser.Statement) string {
	switch s := s.(type) {
	case *sqlparser.Select, *sqlparser.Union, *sqlparser.ParenSelect:
		return "SELECT"
	case *sqlparser.Insert:
		return map[bool]string{true: "REPLACE", false: "INSERT"}[s.Action == sqlparser.ReplaceStr]
	case *sqlparser.Update:
		return "UPDATE"
	case *sqlparser.Delete:
		return "DELETE"
	case *sqlparser.Set:
		return "SET"
	case *sqlparser.DDL, *sqlparser.DBDDL:
		return "DDL"
	case *sqlparser.Show:
		return "SHOW"
	case *sqlparser.Use:
		return "USE"
	case *sqlparser.Begin:
		return "BEGIN"
	case *sqlparser.Commit:
		return "COMMIT"
	case *sqlparser.Rollback:
		return "ROLLBACK"
	case *sqlparser.OtherRead:
		return "OTHER"
	case *sqlparser.Stream:
		return "STREAM"
	}
	return "?"
}

func previewed(in string, kind string) {
	got := sqlparser.StmtType(sqlparser.Preview(in))
	if kind == "OTHER" && got == "DDL" {
		return // TRUNCATE and the like are DDL to one and not to the other
	}
	sym.Assert(got == kind, "a statement is taken for one of another kind")
	dml := kind == "INSERT" || kind == "REPLACE" || kind == "UPDATE" || kind == "DELETE"
	sym.Assert(sqlparser.IsDML(in) == dml, "whether a statement changes rows is told wrongly")
}

// leading is what may stand before a statement.
func leading() string {
	x := sym.Byte()
	sym.Assume(sym.And(sym.Or(x == '\r', sym.Or(x == '\t', x >= ' ')), sym.And(x < 0x7f, sym.And(x != '!', sym.And(x != '*', x != '/')))))
	c := string([]byte{x})
	blank := string([]byte{sym.ByteIn(" \t\n\r")})
	return [...]string{"", blank, "/* " + c + "*/ ", "-- " + c + "select\n", "-- " + c + "\n", "/*" + c + "*//* insert */\n"}[sym.Choice(6)]
}

// HC22Preview: what Preview says of a statement is what the parser makes of it.
func HC22Preview() {
	d := newDeriver(1)
	in, _ := d.derive(roots[sym.Choice(len(roots))])
	sym.Tag(d.tag)
	if sym.Choice(2) == 1 {
		in = spell(in, true, false)
	}
	s, err := sqlparser.Parse(in)
	reject(err)
	in = leading() + in
	sym.Dump(in)
	previewed(in, kindOf(s))
	sym.Cover("end")
}

// HC22Words: the statements of one or two words, and what may follow them.
func HC22Words() {
	c := sym.Byte()
	sym.Assume(sym.And(sym.Or(c == '\r', c >= ' '), sym.And(c < 0x7f, sym.And(c != '*', c != '/'))))
	text := [...]string{"begin", "start transaction", "commit", "rollback", "show tables", "use x", "describe x", "explain x", "analyze table x", "repair x", "optimize x", "truncate table x", "rename table x to y", "drop table x", "alter table x add y int", "stream * from x"}[sym.Choice(16)]
	sym.Tag(text)
	kind := "OTHER"
	if s, err := sqlparser.Parse(text); err == nil {
		kind = kindOf(s)
	}
	switch text[:3] {
	case "tru", "ren", "dro", "alt":
		kind = "DDL"
	case "ana", "rep", "opt":
		kind = "OTHER"
	}
	if sym.Choice(2) == 1 {
		text = strings.ToUpper(text)
	}
	switch sym.Choice(4) {
	case 1:
		text += string([]byte{sym.ByteIn(" \t\n\r")})
	case 2:
		text += " /* " + string([]byte{c}) + " */"
	case 3:
		// More words make no BEGIN, COMMIT or ROLLBACK of it.
		text += string([]byte{sym.ByteRange('a', 'z')})
		if kind == "BEGIN" || kind == "COMMIT" || kind == "ROLLBACK" {
			kind = "UNKNOWN"
		}
	}
	text = leading() + text
	sym.Dump(text)
	previewed(text, kind)
	sym.Cover("end")
}

// HC22Glued: a keyword ends where the tokenizer says, not only at a blank.
func HC22Glued() {
	w := [...]string{"select%1", "select%a%from t", "select%'a' from t", "insert%into t values (1)", "replace%into t values (1)", "update%t set a = 1", "delete%from t", "set%a = 1", "(%select 1) union select 2"}[sym.Choice(9)]
	x := sym.ByteIn("\t\n\r !\"#$%&'()*+,-./:;<=>?@[\\]^`{|}~")
	c := sym.Concretize(string([]byte{x}))
	if w[0] != '(' && sym.Choice(2) == 1 {
		c = "/*" + c + "*/"
	}
	sym.Tag(w)
	in := strings.ReplaceAll(w, "%", c)
	sym.Dump(in)
	s, err := sqlparser.Parse(in)
	sym.Assume(err == nil)
	previewed(in, kindOf(s))
	sym.Cover("end")
}

// conjuncts are the conditions that must all hold.
func conjuncts(e sqlparser.Expr) []string {
	switch e := e.(type) {
	case *sqlparser.AndExpr:
		return append(conjuncts(e.Left), conjuncts(e.Right)...)
	case *sqlparser.ParenExpr:
		return conjuncts(e.Expr)
	}
	return []string{sqlparser.String(e)}
}

func lines(s []string) string { return strings.Join(s, "\n") }

func selectOf(in string) *sqlparser.Select {
	s, err := sqlparser.Parse(in)
	reject(err)
	return s.(*sqlparser.Select)
}

// HC22Where: a condition that is added must hold besides those that were there.
func HC22Where()  { added(1) }
func HC22Where2() { added(2) }

func added(n int) {
	d := newDeriver(n)
	old := ""
	if sym.Choice(2) == 1 {
		old, _ = d.derive("c")
	}
	add, _ := d.derive("c")
	having := sym.Choice(2) == 1
	sym.Tag(d.tag)
	word := " where "
	if having {
		word = " having "
	}
	in := "select 1 from t"
	if old != "" {
		in += word + old
	}
	s := selectOf(in + " limit 7")
	e := selectOf("select 1 from t where " + add).Where.Expr
	var want []string
	if old != "" {
		want = conjuncts(selectOf("select 1 from t where " + old).Where.Expr)
	}
	want = append(want, conjuncts(e)...)
	if having {
		s.AddHaving(e)
	} else {
		s.AddWhere(e)
	}
	p := sqlparser.String(s)
	sym.Dump(in + " & " + add)
	sym.Dump(p)
	r := selectOf(p)
	w, other := r.Where, r.Having
	if having {
		w, other = other, w
	}
	sym.Assert(w != nil && other == nil, "a condition is added to the other clause")
	sym.Assert(lines(conjuncts(w.Expr)) == lines(want), "a condition is not added to the others")
	sym.Assert(sqlparser.String(r) == p, "a printed statement is printed as another")
	sym.Assert(strings.HasPrefix(p, "select 1 from t ") && strings.HasSuffix(p, " limit 7"), "adding a condition changes another clause")
	sym.Cover("end")
}

// HC22Order: an order that is added comes last, a limit replaces the other one.
func HC22Order()  { ordered(1) }
func HC22Order2() { ordered(2) }

func ordered(n int) {
	d := newDeriver(n)
	in, out := d.derive("query")
	by := kit.Name(1)
	rows := kit.Digits(1)
	sym.Tag(d.tag)
	s, err := sqlparser.Parse(in)
	reject(err)
	q, ok := s.(sqlparser.SelectStatement)
	sym.Assume(ok)
	if _, paren := q.(*sqlparser.ParenSelect); paren {
		return
	}
	q.AddOrder(&sqlparser.Order{Expr: &sqlparser.ColName{Name: sqlparser.NewColIdent(by)}, Direction: sqlparser.DescScr})
	q.SetLimit(&sqlparser.Limit{Rowcount: sqlparser.NewIntVal([]byte(rows))})
	p := sqlparser.String(q)
	sym.Dump(out)
	sym.Dump(p)
	// The clauses that follow the order stand at the end of the text.
	lock := ""
	for _, l := range []string{" for update", " lock in share mode"} {
		if strings.HasSuffix(out, l) {
			lock = l
		}
	}
	rest := out[:len(out)-len(lock)]
	var had sqlparser.OrderBy
	switch t := q.(type) {
	case *sqlparser.Select:
		had = t.OrderBy
	case *sqlparser.Union:
		had = t.OrderBy
	}
	if s, err := sqlparser.Parse(in); err == nil {
		var l *sqlparser.Limit
		switch t := s.(type) {
		case *sqlparser.Select:
			l = t.Limit
		case *sqlparser.Union:
			l = t.Limit
		}
		rest = rest[:len(rest)-len(sqlparser.String(l))]
	}
	sep := " order by "
	if len(had) > 1 {
		sep = ", "
	}
	sym.Assert(p == rest+sep+by+" desc limit "+rows+lock, "an added order or limit changes the statement otherwise")
	sym.Cover("end")
}

// pointers are the parts of an expression outside of its subqueries.
func pointers(root sqlparser.Expr) []sqlparser.Expr {
	var all []sqlparser.Expr
	var none *sqlparser.ColName // a name that is no expression of its own
	sqlparser.Walk(func(n sqlparser.SQLNode) (bool, error) {
		switch e := n.(type) {
		case *sqlparser.Subquery:
			return false, nil
		case *sqlparser.SubstrExpr:
			none = e.Name
		case *sqlparser.ValuesFuncExpr:
			none = e.Name
		case *sqlparser.SQLVal, *sqlparser.ColName, *sqlparser.BinaryExpr, *sqlparser.ComparisonExpr, *sqlparser.FuncExpr, *sqlparser.ParenExpr, *sqlparser.CaseExpr, *sqlparser.NullVal, *sqlparser.AndExpr, *sqlparser.OrExpr, *sqlparser.UnaryExpr:
			if n != sqlparser.SQLNode(none) {
				all = append(all, e.(sqlparser.Expr))
			}
		}
		return true, nil
	}, root)
	return all
}

// HC22Replace: replacing a part of an expression gives the text in which that part
// is replaced.
func HC22Replace()  { replaced(1) }
func HC22Replace2() { replaced(2) }

func replaced(n int) {
	d := newDeriver(n)
	nt := "c"
	if sym.Choice(2) == 1 {
		nt = "e"
	}
	in, _ := d.derive(nt)
	at := sym.Choice(6)
	sym.Tag(d.tag)
	s, err := sqlparser.Parse("select 1 from t where " + in)
	sym.Assume(err == nil)
	root := s.(*sqlparser.Select).Where.Expr
	all := pointers(root)
	sym.Assume(at < len(all))
	from := all[at]
	if _, ok := from.(*sqlparser.UnaryExpr); ok && strings.Contains(d.tag, "<un>") {
		return // the blank between the operators goes with it
	}
	buf := sqlparser.NewTrackedBuffer(func(buf *sqlparser.TrackedBuffer, n sqlparser.SQLNode) {
		if n == sqlparser.SQLNode(from) {
			buf.Myprintf("%s", "9")
			return
		}
		n.Format(buf)
	})
	buf.Myprintf("%v", root)
	want := buf.String()
	got := sqlparser.String(sqlparser.ReplaceExpr(root, from, sqlparser.NewIntVal([]byte("9"))))
	sym.Dump(in)
	sym.Dump(want)
	sym.Dump(got)
	sym.Assert(got == want, "replacing a part of an expression gives another expression")
	sym.Cover("end")
}

// impossible is whether a query, as printed, gives no row by its own condition, with
// what it selects, from where and by what as before.
func impossible(a, b sqlparser.SelectStatement) {
	switch x := a.(type) {
	case *sqlparser.ParenSelect:
		y, ok := b.(*sqlparser.ParenSelect)
		sym.Assert(ok, "an impossible query has another form")
		impossible(x.Select, y.Select)
	case *sqlparser.Union:
		y, ok := b.(*sqlparser.Union)
		sym.Assert(ok && x.Type == y.Type, "an impossible query has another form")
		impossible(x.Left, y.Left)
		impossible(x.Right, y.Right)
	case *sqlparser.Select:
		y, ok := b.(*sqlparser.Select)
		sym.Assert(ok, "an impossible query has another form")
		sym.Assert(y.Where != nil && sqlparser.String(y.Where.Expr) == "1 != 1" && y.Having == nil, "an impossible query is possible")
		sym.Assert(lines(never(x.SelectExprs)) == sqlparser.String(y.SelectExprs) && lines(never(x.From)) == sqlparser.String(y.From), "an impossible query selects something else")
		sym.Assert(lines(never(x.GroupBy)) == sqlparser.String(y.GroupBy), "an impossible query groups otherwise")
	}
}

func never(n sqlparser.SQLNode) []string {
	buf := sqlparser.NewTrackedBuffer(sqlparser.FormatImpossibleQuery)
	buf.Myprintf("%v", n)
	return []string{buf.String()}
}

func HC22Impossible()  { forbidden(1) }
func HC22Impossible2() { forbidden(2) }

func forbidden(n int) {
	d := newDeriver(n)
	in, _ := d.derive("query")
	sym.Tag(d.tag)
	sym.Assume(!strings.HasPrefix(in, "select next "))
	s, err := sqlparser.Parse(in)
	reject(err)
	q := s.(sqlparser.SelectStatement)
	p := never(q)[0]
	sym.Dump(in)
	sym.Dump(p)
	r, err := sqlparser.Parse(p)
	sym.Assert(err == nil, "an impossible query is rejected")
	impossible(q, r.(sqlparser.SelectStatement))
	sym.Cover("end")
}

// HC22Parts: what the functions that look at one part say of it.
func HC22Parts() {
	d := newDeriver(1)
	d.left = 0
	kinds := []struct {
		text                       string
		value, null, column, tuple bool
	}{
		{"$a", false, false, true, false}, {"$t.$a", false, false, true, false}, {"#n", true, false, false, false}, {"-#n", true, false, false, false},
		{"%s", true, false, false, false}, {"x'4f'", true, false, false, false}, {":v1", true, false, false, false}, {"0x4f", false, false, false, false},
		{"#n.#m", false, false, false, false}, {"null", false, true, false, false}, {"true", false, false, false, false}, {"(#n)", false, false, false, false},
		{"(#n, %s)", false, false, false, true}, {"(#n, $a)", false, false, false, false}, {"(:v1, x'4f')", false, false, false, true}, {"(#n, null)", false, false, false, false},
		{"(select 1 from t)", false, false, false, false}, {"$a + #n", false, false, false, false}, {"$f(#n)", false, false, false, false},
		{"($a, #n, #n)", false, false, false, false}, {"(#n, #n, $a)", false, false, false, false},
	}
	k := kinds[sym.Choice(len(kinds))]
	sym.Tag(k.text)
	in := d.expand(k.text, map[string][2]string{}, 0)
	sym.Dump(in)
	e := selectOf("select 1 from t where x = " + in).Where.Expr.(*sqlparser.ComparisonExpr).Right
	sym.Assert(sqlparser.IsValue(e) == k.value, "a value is taken for something else")
	sym.Assert(sqlparser.IsNull(e) == k.null, "NULL is taken for something else")
	sym.Assert(sqlparser.IsColName(e) == k.column, "a column is taken for something else")
	sym.Assert(sqlparser.IsSimpleTuple(e) == k.tuple, "a list of values is taken for something else")
	sym.Cover("end")
}

// HC22Tables: the name of a table that is only a name.
func HC22Tables() {
	a, b := kit.Name(2), kit.Name(2)
	form := sym.Choice(5)
	in := [...]string{a, b + "." + a, a + " as x", "(select 1 from " + a + ") as x", b + "." + a + " as x"}[form]
	want := ""
	if form == 0 || form == 2 {
		want = a
	}
	s := selectOf("select 1 from " + in)
	t := s.From[0].(*sqlparser.AliasedTableExpr)
	sym.Assert(sqlparser.GetTableName(t.Expr).String() == want, "a table has another name")
	if n, ok := t.Expr.(sqlparser.TableName); ok {
		sym.Assert(!n.IsEmpty(), "a table has no name")
		v := n.ToViewName()
		sym.Assert(v.Name.String() == strings.ToLower(a) && v.Qualifier == n.Qualifier, "a view has another name")
	}
	sym.Cover("end")
}

// HC22Names: names are equal regardless of their letter case, and are made into
// names of variables.
func HC22Names() {
	n, m := 1+sym.Choice(2), 1+sym.Choice(2)
	var x, y []byte
	for i := 0; i < n; i++ {
		x = append(x, sym.ByteRange(1, 0x7f))
	}
	for i := 0; i < m; i++ {
		y = append(y, sym.ByteRange(1, 0x7f))
	}
	a, b := sqlparser.NewColIdent(string(x)), sqlparser.NewColIdent(string(y))
	same := n == m
	for i := 0; same && i < n; i++ {
		fold := func(c byte) byte {
			if sym.And(c >= 'A', c <= 'Z') {
				return c + 'a' - 'A'
			}
			return c
		}
		same = fold(x[i]) == fold(y[i])
	}
	sym.Assert(a.Equal(b) == same && b.Equal(a) == same, "names are told apart wrongly")
	sym.Assert(a.EqualString(string(y)) == same, "a name and a text are told apart wrongly")
	c := sqlparser.NewColIdent("other")
	at := sqlparser.Columns{c, a}.FindColumn(b)
	sym.Assert((at == 1) == same && (at == -1) == !same, "a column is found in another place")
	q := sqlparser.TableName{Name: sqlparser.NewTableIdent("t")}
	sym.Assert((&sqlparser.ColName{Name: a, Qualifier: q}).Equal(&sqlparser.ColName{Name: b, Qualifier: q}) == same, "columns are told apart wrongly")
	sym.Assert(!(&sqlparser.ColName{Name: a, Qualifier: q}).Equal(&sqlparser.ColName{Name: a}), "columns of two tables are the same")
	p := a.CompliantName()
	sym.Assert(p == sqlparser.NewTableIdent(string(x)).CompliantName(), "a table and a column make different variables")
	sym.Assert(len(p) == n, "a variable has a longer name")
	for i := 0; i < n; i++ {
		ok := sym.Or(sym.And(p[i] >= 'a', p[i] <= 'z'), sym.Or(sym.And(p[i] >= 'A', p[i] <= 'Z'), sym.Or(sym.Or(p[i] == '_', p[i] == '@'), sym.And(p[i] >= '0', p[i] <= '9'))))
		sym.Assert(sym.And(ok, sym.Or(p[i] == x[i], p[i] == '_')), "a variable has a name that is none")
		if i == 0 {
			sym.Assert(!(p[0] >= '0' && p[0] <= '9'), "the name of a variable is a number")
		}
	}
	sym.Cover("end")
}

// HC22Aggregates: which functions are aggregates, in any letter case.
func HC22Aggregates() {
	fs := []string{"avg", "bit_and", "bit_or", "bit_xor", "count", "max", "min", "std", "stddev_pop", "stddev_samp", "stddev", "sum", "var_pop", "var_samp", "variance", "length", "sums", "mi", "stddev_po", "counts", "lower", "abs"}
	k := sym.Choice(len(fs))
	f := fs[k]
	sym.Tag(f)
	if i := sym.Choice(2); i == 1 {
		f = strings.ToUpper(f)
	}
	s := selectOf("select " + f + "(x) from t")
	e := s.SelectExprs[0].(*sqlparser.AliasedExpr).Expr.(*sqlparser.FuncExpr)
	sym.Assert(e.IsAggregate() == (k < 15), "a function is wrongly an aggregate or none")
	sym.Cover("end")
}

// HC22Directives: the directives in the comments of a statement.
func HC22Directives() {
	in := [...]string{"select /*vt+%*/ 1 from t", "insert /*vt+%*/ into t values (1)", "update /*vt+%*/ t set a = 1", "delete /*vt+%*/ from t", "select /* vt+%*/ 1 from t", "select /* x */ /*vt+%*/ 1 from t", "replace /*vt+%*/ into t values (1)", "set /*vt+%*/ a = 1"}
	form := sym.Choice(len(in))
	vals := []string{"", "=1", "=0", "=true", "=false", "=2", "=x", "=", "=-1"}
	val := sym.Choice(len(vals))
	key := "SKIP_QUERY_PLAN_CACHE"
	other := sym.Choice(4)
	dir := " " + key + vals[val]
	c := string([]byte{sym.ByteRange('g', 's')})
	switch other {
	case 1:
		dir = " " + c + "=" + c + dir
	case 2:
		dir += " " + c
	case 3:
		dir = " " + key + c + vals[val]
	}
	sym.Tag(in[form])
	text := strings.ReplaceAll(in[form], "%", dir+" ")
	sym.Dump(text)
	s, err := sqlparser.Parse(text)
	reject(err)
	set := (val == 0 || val == 1 || val == 3) && other != 3
	sym.Assert(sqlparser.SkipQueryPlanCacheDirective(s) == (set && form != 4 && form != 7), "a directive is told wrongly")
	if q, ok := s.(*sqlparser.Select); ok {
		ds := sqlparser.ExtractCommentDirectives(q.Comments)
		sym.Assert((ds != nil) == (form != 4), "there are directives in no comment for them")
		if form != 4 {
			sym.Assert(ds.IsSet(key) == set && !ds.IsSet("x"), "a directive is told wrongly")
			n := 1
			if other == 1 {
				n = 2
				v, ok := ds[c].(string)
				sym.Assert(ok && v == c, "a directive has another value")
			}
			if other == 2 {
				n = 2
				sym.Assert(ds.IsSet(c), "a directive without a value is not set")
			}
			sym.Assert(len(ds) == n, "there are more or fewer directives")
			if other != 3 {
				switch v := ds[key].(type) {
				case bool:
					sym.Assert(v == (val != 4) && (val == 0 || val == 3 || val == 4), "a directive has another value")
				case int:
					sym.Assert(v == map[int]int{1: 1, 2: 0, 5: 2, 8: -1}[val], "a directive has another value")
				case string:
					sym.Assert("="+v == vals[val], "a directive has another value")
				default:
					sym.Fail("a directive has no value")
				}
			}
		}
	}
	sym.Cover("end")
}

// HC22Types: the type of a column, as MySQL names it and as its values have it.
func HC22Types() {
	types := []struct {
		text string
		t    string
	}{
		{"int", "INT32"}, {"integer", "INT32"}, {"tinyint", "INT8"}, {"smallint", "INT16"}, {"mediumint", "INT24"}, {"bigint", "INT64"},
		{"int unsigned", "UINT32"}, {"integer unsigned", "UINT32"}, {"tinyint unsigned", "UINT8"}, {"smallint unsigned", "UINT16"}, {"mediumint unsigned", "UINT24"}, {"bigint unsigned", "UINT64"}, {"bigint(20) unsigned zerofill", "UINT64"},
		{"text", "TEXT"}, {"tinytext", "TEXT"}, {"mediumtext", "TEXT"}, {"longtext", "TEXT"}, {"blob", "BLOB"}, {"tinyblob", "BLOB"}, {"mediumblob", "BLOB"}, {"longblob", "BLOB"},
		{"char(#)", "CHAR"}, {"varchar(#)", "VARCHAR"}, {"binary(#)", "BINARY"}, {"varbinary(#)", "VARBINARY"}, {"date", "DATE"}, {"time", "TIME"}, {"datetime", "DATETIME"}, {"timestamp", "TIMESTAMP"}, {"datetime(#)", "DATETIME"}, {"year", "YEAR"},
		{"float", "FLOAT32"}, {"float(#,2)", "FLOAT32"}, {"double", "FLOAT64"}, {"decimal(#,2)", "DECIMAL"}, {"decimal(#)", "DECIMAL"}, {"bit(#)", "BIT"}, {"json", "JSON"}, {"enum('a')", "ENUM"}, {"set('a')", "SET"},
		{"geometry", "GEOMETRY"}, {"point", "GEOMETRY"}, {"linestring", "GEOMETRY"}, {"polygon", "GEOMETRY"}, {"geometrycollection", "GEOMETRY"}, {"multipoint", "GEOMETRY"}, {"multilinestring", "GEOMETRY"}, {"multipolygon", "GEOMETRY"},
	}
	k := types[sym.Choice(len(types))]
	sym.Tag(k.text)
	n := kit.Digits(2)
	text := strings.ReplaceAll(k.text, "#", n)
	s, err := sqlparser.ParseStrictDDLWithMode("create table t (a "+text+" not null default 1 comment 'x')", sqlparser.ParserModeMysql)
	reject(err)
	c := s.(*sqlparser.DDL).TableSpec.Columns[0].Type
	sym.Dump(c.DescribeType())
	sym.Assert(c.SQLType().String() == k.t, "a column has values of another type")
	want := text
	if strings.HasPrefix(want, "enum") || strings.HasPrefix(want, "set") {
		want = want[:strings.IndexByte(want, '(')]
	}
	sym.Assert(c.DescribeType() == want, "a type is described as another")
	sym.Cover("end")
}

// HC22Value: the expression made of a value is that value.
func HC22Value() {
	n := kit.Digits(2)
	k := sym.Choice(6)
	var v sqltypes.Value
	switch k {
	case 0:
		v = sqltypes.NULL
	case 1:
		v = sqltypes.TestValue(sqltypes.Int64, n)
	case 2:
		v = sqltypes.TestValue(sqltypes.Uint8, n)
	case 3:
		v = sqltypes.TestValue(sqltypes.Float64, n+".5")
	case 4:
		v = sqltypes.TestValue(sqltypes.Decimal, n+".5")
	case 5:
		v = sqltypes.TestValue(sqltypes.VarChar, string([]byte{sym.Byte(), sym.Byte()}))
	}
	e, err := sqlparser.ExprFromValue(v)
	sym.Assert(err == nil, "a value is refused")
	r := selectOf("select 1 from t where x = " + sqlparser.String(e)).Where.Expr.(*sqlparser.ComparisonExpr).Right
	if k == 0 {
		sym.Assert(sqlparser.IsNull(e) && sqlparser.IsNull(r), "NULL becomes a value")
	} else {
		x := r.(*sqlparser.SQLVal)
		want := [...]sqlparser.ValType{0, sqlparser.IntVal, sqlparser.IntVal, sqlparser.FloatVal, sqlparser.FloatVal, sqlparser.StrVal}[k]
		sym.Assert(x.Type == want && string(x.Val) == v.ToString(), "a value becomes another one")
	}
	_, err = sqlparser.ExprFromValue(sqltypes.TestValue(sqltypes.Expression, "a"))
	sym.Assert(err != nil, "an expression becomes a value")
	sym.Cover("end")
}
