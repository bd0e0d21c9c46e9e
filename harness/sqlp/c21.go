package sqlp

import (
	"bytes"
	"strings"

	"github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// literal is one more literal: any number of two digits, any string of one
// character. In a derivation that repeats another they are the first ones left.
func (d *deriver) literal(digits, kind string) string {
	var v string
	switch {
	case d.replayed || len(d.lits) >= d.few:
		n := len(d.lits)
		v = string([]byte{byte('1' + n/10), byte('0' + n%10)})
		if kind == "%" {
			v = "'" + v + "'"
		}
	case kind == "#":
		v = digits
	default:
		c := sym.Byte()
		sym.Assume(sym.And(c >= ' ', sym.And(c < 0x7f, sym.And(c != '\'', sym.And(c != '"', c != '\\')))))
		v = "'" + string([]byte{c}) + "'"
	}
	d.lits = append(d.lits, v)
	return v
}

// notValues are literals that are part of the syntax, with the ones to take instead.
var notValues = [][2]string{{"char(#n", "char(9"}, {"decimal(#n, #m)", "decimal(9, 2)"}, {"separator %s", "separator '-'"}}

var queries = []string{"query", "insert", "update", "delete", "set"}

func parse(in string) sqlparser.Statement {
	s, err := sqlparser.Parse(in)
	if err != nil {
		sym.Dump(err.Error())
		sym.Fail("a statement is rejected")
	}
	return s
}

// given are the variables a query may come with.
func given() map[string]*querypb.BindVariable {
	return map[string]*querypb.BindVariable{
		"v1": sqltypes.StringBindVariable("given"),
		"v2": {Type: querypb.Type_TUPLE, Values: []*querypb.Value{{Type: sqltypes.VarChar, Value: []byte("in")}, {Type: sqltypes.Int64, Value: []byte("5")}}},
	}
}

func fillGiven(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "::v2", "('in', 5)"), ":v1", "'given'")
}

func c21(n, few int) {
	d := newDeriver(n)
	d.few = few
	d.fresh = true
	in, _ := d.derive(queries[sym.Choice(len(queries))])
	in = strings.ReplaceAll(in, "::list", "::v2")
	sym.Tag(d.tag)
	sym.Dump(in)
	s := parse(in)
	before := sqlparser.String(s)
	used := strings.Contains(in, ":v1") || strings.Contains(in, "::v2")
	sym.Dump(before)

	bv := map[string]*querypb.BindVariable{}
	sqlparser.Normalize(s, bv, "v")
	after := sqlparser.String(s)
	sym.Dump(after)
	if used {
		_, a := bv["v1"]
		_, b := bv["v2"]
		sym.Assert(!(a && strings.Contains(in, ":v1")) && !(b && strings.Contains(in, "::v2")), "a variable of the query is given another value")
	}
	var vars []*querypb.BindVariable
	for i := 1; i <= 20; i++ {
		name := "v" + string([]byte{byte('0' + i)})
		if i > 9 {
			name = "v1" + string([]byte{byte('0' + i - 10)})
		}
		if v := bv[name]; v != nil {
			sym.Assert(strings.Contains(after, ":"+name), "a variable is not used")
			sym.Assert(sqltypes.ValidateBindVariable(v) == nil, "a variable has a value that is not of its type")
			vars = append(vars, v)
		}
	}
	sym.Assert(len(vars) == len(bv), "a variable has another name than the next one")
	if _, ok := s.(*sqlparser.Select); ok {
		for i, x := range vars {
			for _, y := range vars[:i] {
				if x.Type == y.Type && x.Type != querypb.Type_TUPLE {
					sym.Assert(!bytes.Equal(x.Value, y.Value), "equal literals of a query have two variables")
				}
			}
		}
	}
	vs := given()
	if bv["v1"] == nil {
		bv["v1"] = vs["v1"]
	}
	if bv["v2"] == nil {
		bv["v2"] = vs["v2"]
	}
	text, err := sqlparser.NewParsedQuery(s).GenerateQuery(bv, nil)
	if err != nil {
		sym.Dump(err.Error())
		sym.Fail("the variables do not fit the query")
	}
	sym.Dump(string(text))
	sym.Assert(string(text) == fillGiven(before), "the query with its values filled in is another one")
	sym.Cover("end")
}

func HC21Normal() { c21(1, 100) }
func HC21Two()    { c21(2, 2) }
func HC21TwoAny() { c21(2, 100) }

// c21leak: the redacted text is the same whatever the literals are, as long as the
// same ones are equal (see
// notValues for what is no value).
func c21leak(n, few int) {
	d := newDeriver(n)
	d.fresh = true
	d.few = few
	root := queries[sym.Choice(len(queries))]
	in, _ := d.derive(root)
	for i, x := range d.lits {
		for _, y := range d.lits[:i] {
			sym.Assume(x != y)
		}
	}
	d2 := newDeriver(n)
	d2.fresh = true
	d2.replayed = true
	d2.replay = d.choices
	d2.names = d.names
	in2, _ := d2.derive(root)
	sym.Tag(d.tag)
	sym.Dump(in)
	sym.Dump(in2)
	a, err := sqlparser.RedactSQLQuery(in)
	b, err2 := sqlparser.RedactSQLQuery(in2)
	sym.Assert(err == nil && err2 == nil, "a query is rejected")
	sym.Dump(a)
	sym.Dump(b)
	sym.Assert(a == b, "the redacted query tells a literal")
	sym.Cover("end")
}

func HC21Leak()    { c21leak(1, 100) }
func HC21Leak2()   { c21leak(2, 1) }
func HC21LeakAny() { c21leak(2, 100) }

// HC21Number: every number of 64 bits and every decimal one is a value, a bigger one
// is left alone.
func HC21Number() {
	var n string
	redacted := true
	var t querypb.Type
	switch sym.Choice(6) {
	case 0:
		n = "922337203685477580" + string([]byte{sym.ByteRange('0', '9')})
		redacted = n <= "9223372036854775807"
		t = sqltypes.Int64
	case 1:
		n = "922337203685477580" + string([]byte{sym.ByteRange('0', '9')})
		redacted = n <= "9223372036854775808"
		n = "-" + n
		t = sqltypes.Int64
	case 2:
		n = "0" + string([]byte{sym.ByteRange('0', '9')})
		t = sqltypes.Int64
	case 3:
		n = string([]byte{sym.ByteRange('0', '9')}) + "." + string([]byte{sym.ByteRange('0', '9')})[:sym.Choice(2)]
		t = sqltypes.Float64
	case 4:
		n = "." + string([]byte{sym.ByteRange('0', '9')})
		t = sqltypes.Float64
	case 5:
		n = string([]byte{sym.ByteRange('0', '9')}) + []string{"e", "E", ".5e"}[sym.Choice(3)] + []string{"", "+", "-"}[sym.Choice(3)] + string([]byte{sym.ByteRange('0', '9')})
		t = sqltypes.Float64
	}
	in := "select a from t where b = " + n
	sym.Dump(in)
	list := sym.Choice(2) == 0
	if list {
		in = "select a from t where b in (" + n + ")"
	}
	s := parse(in)
	bv := map[string]*querypb.BindVariable{}
	sqlparser.Normalize(s, bv, "x")
	text := sqlparser.String(s)
	sym.Cover("end")
	if !redacted {
		sym.Assert(text == in && len(bv) == 0, "a number that does not fit is altered")
		return
	}
	v := bv["x1"]
	sym.Assert(len(bv) == 1 && v != nil, "a number is no variable")
	if list {
		sym.Assert(text == "select a from t where b in ::x1", "a list is not replaced")
		sym.Assert(v.Type == querypb.Type_TUPLE && len(v.Values) == 1 && v.Values[0].Type == t && string(v.Values[0].Value) == n, "a list has another value")
	} else {
		sym.Assert(text == "select a from t where b = :x1", "a number is not replaced")
		sym.Assert(v.Type == t && string(v.Value) == n, "a variable has another value")
	}
	sym.Cover("kept")
}

// HC21Text: strings of any length and any bytes are values; equal ones of up to 256
// bytes, and only these, share a variable; a string is no number.
func HC21Text() {
	n := []int{0, 1, 2, 255, 256, 257}[sym.Choice(6)]
	mk := func() []byte {
		b := bytes.Repeat([]byte("s"), n)
		if n > 0 {
			b[n-1] = sym.Byte()
		}
		if n > 1 {
			b[0] = sym.Byte()
		}
		return b
	}
	var l [2][]byte
	var vals [2]*sqlparser.SQLVal
	for i := range l {
		l[i] = mk()
		vals[i] = sqlparser.NewStrVal(append([]byte(nil), l[i]...))
	}
	number := n > 0 && n < 3 && sym.Choice(2) == 0
	if number {
		for _, c := range l[1] {
			sym.Assume(sym.And(c >= '0', c <= '9'))
		}
		vals[1] = sqlparser.NewIntVal(append([]byte(nil), l[1]...))
	}
	s := &sqlparser.Select{SelectExprs: sqlparser.SelectExprs{&sqlparser.AliasedExpr{Expr: vals[0]}, &sqlparser.AliasedExpr{Expr: vals[1]}}}
	bv := map[string]*querypb.BindVariable{}
	sqlparser.Normalize(s, bv, "x")
	sym.Cover("end")
	first := bv["x1"]
	sym.Assert(first != nil && first.Type == sqltypes.VarBinary && bytes.Equal(first.Value, l[0]), "a string has another value")
	sym.Assert(vals[0].Type == sqlparser.ValArg && string(vals[0].Val) == ":x1" && vals[1].Type == sqlparser.ValArg, "a string is not replaced")
	if !number && n <= 256 && bytes.Equal(l[0], l[1]) {
		sym.Assert(len(bv) == 1 && string(vals[1].Val) == ":x1", "equal strings have two variables")
		return
	}
	second := bv["x2"]
	sym.Assert(len(bv) == 2 && second != nil && string(vals[1].Val) == ":x2", "two values share a variable")
	want := sqltypes.VarBinary
	if number {
		want = sqltypes.Int64
	}
	sym.Assert(second.Type == want && bytes.Equal(second.Value, l[1]), "another string has another value")
	sym.Cover("two")
}

// anyValue is a value and its text in a query.
func anyValue() (sqltypes.Value, string) {
	switch sym.Choice(3) {
	case 0:
		n := []byte{sym.ByteRange('0', '9')}
		return sqltypes.MakeTrusted(sqltypes.Int64, n), string(n)
	case 1:
		b := []byte{sym.Byte()}
		return sqltypes.MakeTrusted(sqltypes.VarChar, b), sqlparser.String(sqlparser.NewStrVal(b))
	}
	return sqltypes.NULL, "null"
}

// HC21Fetch: a variable is filled in where it is, one of the wrong kind or none at
// all is refused.
func HC21Fetch() {
	stmt := []string{"select a from t where b = :x and c in ::y", "update t set a = :x where b in ::y", "insert into t values (:x, 1)", "select :x, :x from t", "select a from t limit :x"}[sym.Choice(5)]
	s := parse(stmt)
	text := sqlparser.String(s)
	bv := map[string]*querypb.BindVariable{}
	bad := false
	uses := strings.Contains(stmt, "::y")
	x, xt := anyValue()
	switch sym.Choice(3) {
	case 0:
		bv["x"] = sqltypes.ValueBindVariable(x)
		text = strings.ReplaceAll(text, ":x", xt)
	case 1:
		bad = true
	case 2:
		bv["x"] = &querypb.BindVariable{Type: querypb.Type_TUPLE, Values: []*querypb.Value{sqltypes.ValueToProto(x)}}
		bad = true
	}
	if uses {
		y, yt := anyValue()
		z, zt := anyValue()
		switch sym.Choice(5) {
		case 0:
			bv["y"] = &querypb.BindVariable{Type: querypb.Type_TUPLE, Values: []*querypb.Value{sqltypes.ValueToProto(y), sqltypes.ValueToProto(z)}}
			text = strings.ReplaceAll(text, "::y", "("+yt+", "+zt+")")
		case 1:
			bv["y"] = &querypb.BindVariable{Type: querypb.Type_TUPLE, Values: []*querypb.Value{sqltypes.ValueToProto(y)}}
			text = strings.ReplaceAll(text, "::y", "("+yt+")")
		case 2:
			bv["y"] = &querypb.BindVariable{Type: querypb.Type_TUPLE}
			bad = true
		case 3:
			bv["y"] = sqltypes.ValueBindVariable(y)
			bad = true
		case 4:
			bad = true
		}
	}
	got, err := sqlparser.NewParsedQuery(s).GenerateQuery(bv, nil)
	sym.Assert((err != nil) == bad, "variables that do not fit are taken or ones that fit are refused")
	sym.Cover("end")
	if !bad {
		sym.Dump(string(got))
		sym.Assert(string(got) == text, "a query is filled in with other values")
		sym.Cover("filled")
	}
}

// HC21Extra: rows and conditions on several columns.
func HC21Extra() {
	cols := 1 + sym.Choice(2)
	rows := 1 + sym.Choice(2)
	names := []string{"a", "select"}
	quoted := []string{"a", "`select`"}
	if sym.Choice(2) == 0 {
		c := sym.ByteIn("jkq -'.")
		names[0] = string([]byte{c})
		quoted[0] = names[0]
		if c < 'a' {
			quoted[0] = "`" + names[0] + "`"
		}
	}
	eq := &sqlparser.TupleEqualityList{}
	for i := 0; i < cols; i++ {
		eq.Columns = append(eq.Columns, sqlparser.NewColIdent(names[i]))
	}
	cond, vals := "", ""
	var in string
	for r := 0; r < rows; r++ {
		var row []sqltypes.Value
		c, l := "", ""
		for i := 0; i < cols; i++ {
			v, t := anyValue()
			row = append(row, v)
			if i > 0 {
				c += " and "
				l += ", "
			}
			c += quoted[i] + " = " + t
			l += t
		}
		eq.Rows = append(eq.Rows, row)
		if r > 0 {
			cond += " or "
			vals += ", "
			in += ", "
		}
		cond += "(" + c + ")"
		vals += "(" + l + ")"
		in += l
	}
	if cols == 1 {
		cond = quoted[0] + " in (" + in + ")"
	}
	s := parse("select a from t where :x")
	got, err := sqlparser.NewParsedQuery(s).GenerateQuery(nil, map[string]sqlparser.Encodable{"x": eq})
	sym.Assert(err == nil, "a condition is refused")
	sym.Dump(string(got))
	want := "select a from t where " + cond
	sym.Assert(string(got) == want, "a condition is another one")
	sym.Assert(sqlparser.String(parse(want)) == want, "a condition means another one")
	var buf bytes.Buffer
	sqlparser.InsertValues(eq.Rows).EncodeSQL(&buf)
	sym.Assert(buf.String() == vals, "rows are other ones")
	sym.Cover("end")
}
