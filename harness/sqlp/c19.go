package sqlp

import (
	"bytes"

	"github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
	"github.com/k0kubun/sqldef/zverif/sym"
)

// kinds of types
const (
	kNull = iota
	kSigned
	kUnsigned
	kFloat
	kDecimal
	kQuoted
	kText
	kBinary
	kExpression
)

type typeInfo struct {
	t           querypb.Type
	kind        int
	my, myFlags int64 // how MySQL announces it; my 0 = not at all
}

const (
	fUnsigned = 32
	fBinary   = 128
	fEnum     = 256
	fSet      = 2048
)

var types = []typeInfo{
	{sqltypes.Null, kNull, 6, fBinary},
	{sqltypes.Int8, kSigned, 1, 0}, {sqltypes.Uint8, kUnsigned, 1, fUnsigned},
	{sqltypes.Int16, kSigned, 2, 0}, {sqltypes.Uint16, kUnsigned, 2, fUnsigned},
	{sqltypes.Int24, kSigned, 9, 0}, {sqltypes.Uint24, kUnsigned, 9, fUnsigned},
	{sqltypes.Int32, kSigned, 3, 0}, {sqltypes.Uint32, kUnsigned, 3, fUnsigned},
	{sqltypes.Int64, kSigned, 8, 0}, {sqltypes.Uint64, kUnsigned, 8, fUnsigned},
	{sqltypes.Float32, kFloat, 4, 0}, {sqltypes.Float64, kFloat, 5, 0},
	{sqltypes.Timestamp, kQuoted, 7, 0}, {sqltypes.Date, kQuoted, 10, fBinary}, {sqltypes.Time, kQuoted, 11, fBinary}, {sqltypes.Datetime, kQuoted, 12, fBinary},
	{sqltypes.Year, kUnsigned, 13, fUnsigned}, {sqltypes.Decimal, kDecimal, 246, 0},
	{sqltypes.Text, kText, 252, 0}, {sqltypes.Blob, kBinary, 252, fBinary}, {sqltypes.VarChar, kText, 253, 0}, {sqltypes.VarBinary, kBinary, 253, fBinary},
	{sqltypes.Char, kText, 254, 0}, {sqltypes.Binary, kBinary, 254, fBinary}, {sqltypes.Bit, kQuoted, 16, fUnsigned}, {sqltypes.Enum, kQuoted, 254, fEnum}, {sqltypes.Set, kQuoted, 254, fSet},
	{sqltypes.Geometry, kQuoted, 255, 0}, {sqltypes.TypeJSON, kQuoted, 245, 0}, {sqltypes.Expression, kExpression, 0, 0},
}

func oneType() typeInfo {
	x := types[sym.Choice(len(types))]
	sym.Tag(x.t.String())
	return x
}

// HC19Types: the predicates put every type into one category, the types of MySQL
// are read as what they are announced as, whatever other flags are set.
func HC19Types() {
	x := oneType()
	t, k := x.t, x.kind
	v := sqltypes.MakeTrusted(t, []byte("1"))
	is := func(got, valueGot, want bool, what string) {
		sym.Assert(got == want && valueGot == want, "wrong category: "+what)
	}
	is(sqltypes.IsSigned(t), v.IsSigned(), k == kSigned, "signed")
	is(sqltypes.IsUnsigned(t), v.IsUnsigned(), k == kUnsigned, "unsigned")
	is(sqltypes.IsIntegral(t), v.IsIntegral(), k == kSigned || k == kUnsigned, "integral")
	is(sqltypes.IsFloat(t), v.IsFloat(), k == kFloat, "float")
	is(sqltypes.IsText(t), v.IsText(), k == kText, "text")
	is(sqltypes.IsBinary(t), v.IsBinary(), k == kBinary, "binary")
	is(sqltypes.IsQuoted(t), v.IsQuoted(), k == kQuoted || k == kText || k == kBinary, "quoted")
	is(v.IsNull(), t == sqltypes.Null, k == kNull, "null")
	sym.Assert(v.Type() == t, "wrong type")
	sym.Cover("end")
}

// HC19Flags: any number of a type and any flags.
func HC19Flags() {
	my, fl := int64(sym.Int(0, 300)), int64(sym.Uint64())
	t, err := sqltypes.MySQLToType(my, fl)
	u, b, e, s := fl&fUnsigned != 0, fl&fBinary != 0, fl&fEnum != 0, fl&fSet != 0
	pick := func(c bool, x, y querypb.Type) querypb.Type {
		if c {
			return x
		}
		return y
	}
	var want querypb.Type
	known := true
	switch my {
	case 1:
		want = pick(u, sqltypes.Uint8, sqltypes.Int8)
	case 2:
		want = pick(u, sqltypes.Uint16, sqltypes.Int16)
	case 3:
		want = pick(u, sqltypes.Uint32, sqltypes.Int32)
	case 4:
		want = sqltypes.Float32
	case 5:
		want = sqltypes.Float64
	case 6:
		want = sqltypes.Null
	case 7:
		want = sqltypes.Timestamp
	case 8:
		want = pick(u, sqltypes.Uint64, sqltypes.Int64)
	case 9:
		want = pick(u, sqltypes.Uint24, sqltypes.Int24)
	case 10:
		want = sqltypes.Date
	case 11:
		want = sqltypes.Time
	case 12:
		want = sqltypes.Datetime
	case 13:
		want = sqltypes.Year
	case 16:
		want = sqltypes.Bit
	case 245:
		want = sqltypes.TypeJSON
	case 246:
		want = sqltypes.Decimal
	case 249, 250, 251, 252:
		want = pick(b, sqltypes.Blob, sqltypes.Text)
	case 253:
		want = pick(b, sqltypes.VarBinary, sqltypes.VarChar)
	case 254:
		want = pick(b, sqltypes.Binary, pick(e, sqltypes.Enum, pick(s, sqltypes.Set, sqltypes.Char)))
	case 255:
		want = sqltypes.Geometry
	default:
		known = false
	}
	sym.Assert((err == nil) == known, "an unknown type is accepted or a known one refused")
	if known {
		sym.Assert(t == want, "a MySQL type is read as another")
		m, f := sqltypes.TypeToMySQL(t)
		t2, err := sqltypes.MySQLToType(m, f)
		sym.Assert(err == nil && t2 == t, "a type does not survive the way to MySQL and back")
	}
	sym.Cover("end")
}

func HC19MySQL() {
	x := oneType()
	sym.Assume(x.my != 0)
	m, f := sqltypes.TypeToMySQL(x.t)
	sym.Assert(m == x.my, "a type is announced as another")
	sym.Assert(f == x.myFlags, "a type is announced with other flags")
	sym.Cover("end")
}

func digit(c byte) bool { return sym.And(c >= '0', c <= '9') }

// number reports a decimal number: a sign if allowed, digits, and for floats a point
// and an exponent.
func number(v []byte, sign, float bool) bool {
	i := 0
	if sign && i < len(v) && (v[i] == '-' || v[i] == '+') {
		i++
	}
	n := 0
	for i < len(v) && digit(v[i]) {
		i++
		n++
	}
	if float && i < len(v) && v[i] == '.' {
		i++
		for i < len(v) && digit(v[i]) {
			i++
			n++
		}
	}
	if n == 0 {
		return false
	}
	if float && i < len(v) && (v[i] == 'e' || v[i] == 'E') {
		i++
		if i < len(v) && (v[i] == '-' || v[i] == '+') {
			i++
		}
		n = 0
		for i < len(v) && digit(v[i]) {
			i++
			n++
		}
		if n == 0 {
			return false
		}
	}
	return i == len(v)
}

// encoded checks the SQL and ASCII encodings of a value.
func encoded(v sqltypes.Value, kind int, raw []byte) {
	var b bytes.Buffer
	v.EncodeSQL(&b)
	switch kind {
	case kNull:
		sym.Assert(b.String() == "null", "NULL is encoded otherwise")
	case kQuoted, kText, kBinary:
		sql := b.String() + " "
		tkn := sqlparser.NewStringTokenizer(sql, sqlparser.ParserModeMysql)
		k, val := tkn.Scan()
		sym.Assert(k == sqlparser.STRING, "an encoded value is no string")
		sym.Assert(bytes.Equal(val, raw), "an encoded value is read as another")
		k, _ = tkn.Scan()
		sym.Assert(k == 0, "an encoded value is more than a string")
	default:
		sym.Assert(bytes.Equal(b.Bytes(), raw), "a number is encoded as another")
	}
}

// HC19ASCII: the base64 form of any bytes.
func HC19ASCII() {
	x := oneType()
	raw := []byte("abcdefg")[:sym.Choice(8)]
	if len(raw) > 0 {
		raw[sym.Choice(len(raw))] = sym.Byte()
	}
	v := sqltypes.MakeTrusted(x.t, raw)
	var a bytes.Buffer
	v.EncodeASCII(&a)
	switch x.kind {
	case kNull:
		sym.Assert(a.String() == "null", "NULL is encoded otherwise")
	case kQuoted, kText, kBinary:
		sym.Assert(a.String() == base64(raw), "the ASCII encoding is of another value")
	default:
		sym.Assert(bytes.Equal(a.Bytes(), raw), "a number is encoded as another")
	}
	sym.Cover("end")
}

const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func base64(b []byte) string {
	out := []byte{'\''}
	for i := 0; i < len(b); i += 3 {
		var w uint32
		for j := 0; j < 3; j++ {
			w <<= 8
			if i+j < len(b) {
				w |= uint32(b[i+j])
			}
		}
		for j := 0; j < 4; j++ {
			if i+j > len(b) {
				out = append(out, '=')
			} else {
				out = append(out, alphabet[w>>(18-6*uint(j))&63])
			}
		}
	}
	return string(append(out, '\''))
}

func same(v sqltypes.Value, t querypb.Type, raw []byte) bool {
	return v.Type() == t && bytes.Equal(v.Raw(), raw) && bytes.Equal(v.ToBytes(), raw) && v.ToString() == string(raw) && v.Len() == len(raw)
}

// HC19Value: any bytes as a value of any type are kept or refused.
func HC19Value()  { value(2) }
func HC19Value3() { value(3) }

func value(n int) {
	x := oneType()
	m := sym.Choice(n + 1)
	var raw []byte
	for i := 0; i < m; i++ {
		raw = append(raw, sym.Byte())
	}
	v, err := sqltypes.NewValue(x.t, raw)
	e2 := sqltypes.ValidateBindVariable(&querypb.BindVariable{Type: x.t, Value: raw})
	sym.Assert((err == nil) == (e2 == nil), "a bind variable is valid where its value is not")
	ok := true
	switch x.kind {
	case kSigned:
		ok = number(raw, true, false)
	case kUnsigned:
		ok = number(raw, false, false)
	case kFloat, kDecimal:
		ok = number(raw, true, true)
	case kExpression:
		ok = false
	}
	sym.Assert((err == nil) == ok, "a malformed number is accepted or a number refused")
	sym.Cover("end")
	if !ok {
		return
	}
	if x.kind == kNull {
		sym.Assert(v.IsNull() && v.Raw() == nil, "NULL has a value")
		encoded(v, kNull, nil)
		return
	}
	sym.Assert(same(v, x.t, raw), "a value is altered")
	sym.Assert(same(sqltypes.ProtoToValue(sqltypes.ValueToProto(v)), x.t, raw), "a value is altered by the way to a message and back")
	w, err := sqltypes.BindVariableToValue(sqltypes.ValueBindVariable(v))
	sym.Assert(err == nil && same(w, x.t, raw), "a value is altered by the way to a bind variable and back")
	encoded(v, x.kind, raw)
	sym.Cover("kept")
}

// HC19Integral: numbers of any length around the limits of 64 bits; leading zeros
// and a sign are read, a number that does not fit is refused.
func HC19Integral() {
	var d []byte
	switch sym.Choice(8) {
	case 0:
		for i := sym.Choice(3); i >= 0; i-- {
			d = append(d, sym.ByteRange('0', '9'))
		}
	case 1:
		d = append([]byte("00"), sym.ByteRange('0', '9'), '7')
	case 2:
		d = append([]byte("922337203685477580"), sym.ByteRange('0', '9'))
	case 3:
		d = append([]byte("1844674407370955161"), sym.ByteRange('0', '9'))
	case 4:
		d = append([]byte("92233720368547758"), sym.ByteRange('0', '9'), '0')
	case 5:
		d = append([]byte("184467440737095516"), sym.ByteRange('0', '9'), '5')
	case 6:
		d = append([]byte("1844674407370955161"), sym.ByteRange('0', '9'), '0')
	case 7:
		d = append([]byte("000922337203685477580"), sym.ByteRange('0', '9'))
	}
	neg := sym.Choice(3)
	text := string(d)
	switch neg {
	case 1:
		text = "-" + text
	case 2:
		text = "+" + text
	}
	sym.Tag([]string{"", "-", "+"}[neg])
	abs := d
	for len(abs) > 1 && abs[0] == '0' {
		abs = abs[1:]
	}
	above := func(limit string) bool {
		return len(abs) > len(limit) || len(abs) == len(limit) && string(abs) > limit
	}
	want := string(abs)
	t := sqltypes.Int64
	ok := true
	signed := true
	switch {
	case neg == 1:
		ok = !above("9223372036854775808")
		if want != "0" {
			want = "-" + want
		}
		signed = ok
	case above("18446744073709551615") || neg == 2 && above("9223372036854775807"):
		ok, signed = false, false
	case above("9223372036854775807"):
		t = sqltypes.Uint64
		signed = false
	}
	v, err := sqltypes.NewIntegral(text)
	sym.Assert((err == nil) == ok, "a number is refused or one that does not fit is accepted")
	if ok {
		sym.Assert(same(v, t, []byte(want)), "a number is altered")
	}
	v, err = sqltypes.NewValue(sqltypes.Int64, []byte(text))
	sym.Assert((err == nil) == signed, "a signed number is refused or one that does not fit is accepted")
	if signed {
		sym.Assert(same(v, sqltypes.Int64, []byte(text)), "a signed number is altered")
	}
	v, err = sqltypes.NewValue(sqltypes.Uint64, []byte(text))
	unsigned := neg == 0 && !above("18446744073709551615")
	sym.Assert((err == nil) == unsigned, "an unsigned number is refused or one that does not fit is accepted")
	if unsigned {
		sym.Assert(same(v, sqltypes.Uint64, []byte(text)), "an unsigned number is altered")
	}
	sym.Cover("end")
}

// decimal is the text of a small number.
func decimal(n int64) string {
	if n < 0 {
		return "-" + decimal(-n)
	}
	if n >= 10 {
		return decimal(n/10) + string([]byte{byte('0' + n%10)})
	}
	return string([]byte{byte('0' + n)})
}

// HC19Go: Go values become values and bind variables of the same meaning.
func HC19Go() {
	n := int64(sym.Int(-300, 300))
	b := []byte{sym.Byte(), sym.Byte()}
	var x interface{}
	var t querypb.Type
	var raw []byte
	var list interface{}
	iface := true
	switch sym.Choice(8) {
	case 0:
		x, t, raw = n, sqltypes.Int64, []byte(decimal(n))
		list = []int64{n, 7}
	case 1:
		sym.Assume(n >= 0)
		x, t, raw = uint64(n), sqltypes.Uint64, []byte(decimal(n))
		list = []uint64{uint64(n), 7}
	case 2:
		x, t, raw = string(b), sqltypes.VarChar, b
		list = []string{string(b), "7"}
	case 3:
		x, t, raw = b, sqltypes.VarBinary, b
		list = [][]byte{b, []byte("7")}
	case 4:
		x, t = nil, sqltypes.Null
		list = []interface{}{nil, int64(7)}
	case 5:
		x, t, raw, iface = int(n), sqltypes.Int64, []byte(decimal(n)), false
		list = []int{int(n), 7}
	case 6:
		x, t, raw, iface = sqltypes.MakeTrusted(sqltypes.Datetime, b), sqltypes.Datetime, b, false
		list = []interface{}{x, int64(7)}
	case 7:
		i := sym.Choice(10)
		f := []float64{1.5, -0.25, 1e100, 3, 0.30000000000000004, -0.1, 123456789012345680, 5e-324, 1.7976931348623157e308, 100000000000000000000}[i]
		x, t, raw = f, sqltypes.Float64, []byte([]string{"1.5", "-0.25", "1e+100", "3", "0.30000000000000004", "-0.1", "1.2345678901234568e+17", "5e-324", "1.7976931348623157e+308", "1e+20"}[i])
		list = []float64{f, 7}
	}
	sym.Tag(t.String())
	if iface {
		v, err := sqltypes.InterfaceToValue(x)
		sym.Assert(err == nil && same(v, t, raw), "a Go value becomes another value")
	}
	bv, err := sqltypes.BuildBindVariable(x)
	sym.Assert(err == nil && bv.Type == t && bytes.Equal(bv.Value, raw) && len(bv.Values) == 0, "a Go value becomes another bind variable")
	sym.Assert(sqltypes.ValidateBindVariable(bv) == nil, "a bind variable of a Go value is not valid")
	v, err := sqltypes.BindVariableToValue(bv)
	sym.Assert(err == nil && same(v, t, raw), "a bind variable becomes another value")
	l, err := sqltypes.BuildBindVariable(list)
	sym.Assert(err == nil && l.Type == querypb.Type_TUPLE && len(l.Values) == 2, "a list becomes no tuple of its length")
	sym.Assert(l.Values[0].Type == t && bytes.Equal(l.Values[0].Value, raw), "a member of a list becomes another value")
	sym.Assert(bytes.Equal(l.Values[1].Value, []byte("7")), "a member of a list becomes another value")
	sym.Assert(sqltypes.ValidateBindVariable(l) == nil, "a tuple is not valid")
	_, err = sqltypes.BindVariableToValue(l)
	sym.Assert(err != nil, "a tuple becomes a value")
	m, err := sqltypes.BuildBindVariables(map[string]interface{}{"a": x, "b": list})
	sym.Assert(err == nil && len(m) == 2 && m["a"].Type == t && bytes.Equal(m["a"].Value, raw) && len(m["b"].Values) == 2, "a map of Go values becomes another")
	c := sqltypes.CopyBindVariables(m)
	sym.Assert(len(c) == 2 && c["a"] == m["a"] && c["b"] == m["b"], "a copy differs")
	delete(c, "a")
	sym.Assert(len(m) == 2, "a copy is no copy")
	sym.Cover("end")
}

// HC19Tuple: which tuples are valid.
func HC19Tuple() {
	n := sym.Choice(4)
	bv := &querypb.BindVariable{Type: querypb.Type_TUPLE}
	ok := n > 0
	for i := 0; i < n; i++ {
		switch sym.Choice(5) {
		case 0:
			bv.Values = append(bv.Values, &querypb.Value{Type: sqltypes.Int64, Value: []byte{sym.ByteRange('0', '9')}})
		case 1:
			bv.Values = append(bv.Values, &querypb.Value{Type: sqltypes.VarChar, Value: []byte{sym.Byte()}})
		case 2:
			bv.Values = append(bv.Values, &querypb.Value{Type: querypb.Type_TUPLE})
			ok = false
		case 3:
			c := sym.Byte()
			sym.Assume(sym.Not(digit(c)))
			bv.Values = append(bv.Values, &querypb.Value{Type: sqltypes.Int32, Value: []byte{c}})
			ok = false
		case 4:
			bv.Values = append(bv.Values, &querypb.Value{Type: sqltypes.Null})
		}
	}
	sym.Assert((sqltypes.ValidateBindVariable(bv) == nil) == ok, "an invalid tuple is accepted or a valid one refused")
	good := &querypb.BindVariable{Type: sqltypes.VarChar, Value: []byte("x")}
	sym.Assert((sqltypes.ValidateBindVariables(map[string]*querypb.BindVariable{"a": good, "b": bv, "c": good}) == nil) == ok, "an invalid map is accepted or a valid one refused")
	sym.Assert(sqltypes.ValidateBindVariable(nil) != nil, "no bind variable is valid")
	sym.Cover("end")
}

// HC19Rows: the rows of plan values are those of their columns.
func HC19Rows() {
	b := sym.Byte()
	vars := map[string]*querypb.BindVariable{
		"one": {Type: sqltypes.VarChar, Value: []byte{b}},
	}
	list := &querypb.BindVariable{Type: querypb.Type_TUPLE}
	nl := 1 + sym.Choice(3)
	for i := 0; i < nl; i++ {
		list.Values = append(list.Values, &querypb.Value{Type: sqltypes.VarBinary, Value: []byte{b, byte('a' + i)}})
	}
	vars["list"] = list
	rows := -1
	bad := false
	count := func(n int) {
		if rows >= 0 && rows != n {
			bad = true
		}
		if rows < 0 {
			rows = n
		}
	}
	var pvs []sqltypes.PlanValue
	var cell []func(i int) sqltypes.Value
	for j := 1 + sym.Choice(3); j > 0; j-- {
		switch sym.Choice(9) {
		case 0:
			pvs = append(pvs, sqltypes.PlanValue{Key: "one"})
			cell = append(cell, func(int) sqltypes.Value { return sqltypes.MakeTrusted(sqltypes.VarChar, []byte{b}) })
		case 1:
			pvs = append(pvs, sqltypes.PlanValue{Value: sqltypes.NewInt64(3)})
			cell = append(cell, func(int) sqltypes.Value { return sqltypes.NewInt64(3) })
		case 2:
			pvs = append(pvs, sqltypes.PlanValue{})
			cell = append(cell, func(int) sqltypes.Value { return sqltypes.NULL })
		case 3:
			pvs = append(pvs, sqltypes.PlanValue{ListKey: "list"})
			count(nl)
			cell = append(cell, func(i int) sqltypes.Value {
				return sqltypes.MakeTrusted(sqltypes.VarBinary, []byte{b, byte('a' + i)})
			})
		case 4:
			n := 1 + sym.Choice(3)
			vs := []sqltypes.PlanValue{{Key: "one"}, {Value: sqltypes.NewInt64(4)}, {}}[:n]
			pvs = append(pvs, sqltypes.PlanValue{Values: vs})
			count(n)
			cell = append(cell, func(i int) sqltypes.Value {
				switch i {
				case 0:
					return sqltypes.MakeTrusted(sqltypes.VarChar, []byte{b})
				case 1:
					return sqltypes.NewInt64(4)
				}
				return sqltypes.NULL
			})
		case 5:
			pvs = append(pvs, sqltypes.PlanValue{Key: "none"})
			bad = true
		case 6:
			pvs = append(pvs, sqltypes.PlanValue{Key: "list"})
			bad = true
		case 7:
			pvs = append(pvs, sqltypes.PlanValue{ListKey: "one"})
			bad = true
		case 8:
			pvs = append(pvs, sqltypes.PlanValue{ListKey: "none"})
			bad = true
		}
	}
	if rows < 0 {
		rows = 1
	}
	got, err := sqltypes.ResolveRows(pvs, vars)
	sym.Assert((err == nil) == !bad, "rows are made of what does not fit or refused")
	sym.Cover("end")
	if bad {
		return
	}
	sym.Assert(len(got) == rows, "wrong number of rows")
	for i := range got {
		sym.Assert(len(got[i]) == len(pvs), "wrong number of columns")
		for j := range got[i] {
			w := cell[j](i)
			sym.Assert(got[i][j].Type() == w.Type() && bytes.Equal(got[i][j].Raw(), w.Raw()), "a cell has another value")
		}
	}
	for j, pv := range pvs {
		if pv.IsList() {
			l, err := pv.ResolveList(vars)
			sym.Assert(err == nil && len(l) == rows, "a list has another length")
			for i := range l {
				sym.Assert(l[i].Type() == cell[j](i).Type() && bytes.Equal(l[i].Raw(), cell[j](i).Raw()), "a member has another value")
			}
			_, err = pv.ResolveValue(vars)
			sym.Assert(err != nil, "a list is resolved as a value")
		} else {
			v, err := pv.ResolveValue(vars)
			sym.Assert(err == nil && v.Type() == cell[j](0).Type() && bytes.Equal(v.Raw(), cell[j](0).Raw()), "a plan value has another value")
			_, err = pv.ResolveList(vars)
			sym.Assert(err != nil, "a value is resolved as a list")
		}
		sym.Assert(pv.IsNull() == (pv.Key == "" && !pv.IsList() && cell[j](0).IsNull()), "NULL is not recognised")
	}
	sym.Cover("rows")
}

// planned is an expression of one value and what the plan has to hold; ok false
// means it is to be refused.
func planned(n int, inTuple bool) (sqlparser.Expr, sqltypes.PlanValue, bool) {
	bytesOf := func(max int) []byte {
		b := make([]byte, sym.Choice(max+1))
		for i := range b {
			b[i] = sym.Byte()
		}
		return b
	}
	switch n {
	case 0:
		sym.Tag("string")
		b := bytesOf(3)
		return sqlparser.NewStrVal(b), sqltypes.PlanValue{Value: sqltypes.MakeTrusted(sqltypes.VarBinary, b)}, true
	case 1:
		sym.Tag("number")
		lead := sym.Choice(3)
		abs := []byte{sym.ByteRange('1', '9'), sym.ByteRange('0', '9')}[:1+sym.Choice(2)]
		text := append([]byte("00")[:lead], abs...)
		return sqlparser.NewIntVal(text), sqltypes.PlanValue{Value: sqltypes.MakeTrusted(sqltypes.Int64, abs)}, true
	case 2:
		sym.Tag("hexadecimal")
		d := make([]byte, sym.Choice(4))
		for i := range d {
			d[i] = sym.Byte()
			if i > 0 || inTuple {
				d[i] = sym.ByteIn("g0B")
			}
		}
		ok := len(d)%2 == 0
		dec := make([]byte, len(d)/2)
		for i := range d {
			var v byte
			switch c := d[i]; {
			case '0' <= c && c <= '9':
				v = c - '0'
			case 'a' <= c && c <= 'f':
				v = c - 'a' + 10
			case 'A' <= c && c <= 'F':
				v = c - 'A' + 10
			default:
				ok = false
			}
			if i/2 < len(dec) {
				dec[i/2] = dec[i/2]<<4 | v
			}
		}
		return sqlparser.NewHexVal(d), sqltypes.PlanValue{Value: sqltypes.MakeTrusted(sqltypes.VarBinary, dec)}, ok
	case 3:
		sym.Tag("argument")
		name := []byte{sym.Byte(), sym.Byte()}
		return sqlparser.NewValArg(append([]byte(":"), name...)), sqltypes.PlanValue{Key: string(name)}, true
	case 4:
		sym.Tag("null")
		return &sqlparser.NullVal{}, sqltypes.PlanValue{}, true
	case 5:
		sym.Tag("float")
		return sqlparser.NewFloatVal([]byte("1.5")), sqltypes.PlanValue{}, false
	case 6:
		sym.Tag("too big")
		return sqlparser.NewIntVal([]byte("18446744073709551616")), sqltypes.PlanValue{}, false
	case 7:
		sym.Tag("column")
		return &sqlparser.ColName{Name: sqlparser.NewColIdent("c")}, sqltypes.PlanValue{}, false
	}
	sym.Tag("list argument")
	name := []byte{sym.Byte(), sym.Byte()}
	return sqlparser.ListArg(append([]byte("::"), name...)), sqltypes.PlanValue{ListKey: string(name)}, true
}

func samePlan(a, b sqltypes.PlanValue) bool {
	if len(a.Values) != len(b.Values) || (a.Values == nil) != (b.Values == nil) {
		return false
	}
	for i := range a.Values {
		if !samePlan(a.Values[i], b.Values[i]) {
			return false
		}
	}
	return a.Key == b.Key && a.ListKey == b.ListKey && a.Value.Type() == b.Value.Type() && bytes.Equal(a.Value.Raw(), b.Value.Raw())
}

// HC19Plan: the value an expression stands for.
func HC19Plan() {
	n := sym.Choice(11)
	if n < 9 {
		e, want, ok := planned(n, false)
		got, err := sqlparser.NewPlanValue(e)
		sym.Assert((err == nil) == ok, "a value is refused or what is none is accepted")
		if ok {
			sym.Assert(samePlan(got, want), "the plan holds another value")
		}
		sym.Cover("end")
		return
	}
	sym.Tag("tuple")
	var t sqlparser.ValTuple
	all := true
	want := sqltypes.PlanValue{Values: []sqltypes.PlanValue{}}
	for i := n - 8; i > 0; i-- {
		e, w, ok := planned(sym.Choice(9), true)
		if w.ListKey != "" {
			ok = false
		}
		if _, list := e.(sqlparser.ListArg); list {
			ok = false
		}
		t = append(t, e)
		want.Values = append(want.Values, w)
		all = all && ok
	}
	got, err := sqlparser.NewPlanValue(t)
	sym.Assert((err == nil) == all, "a tuple is refused or one of what is no value is accepted")
	if all {
		sym.Assert(samePlan(got, want), "the plan holds other values")
		_, err = sqlparser.NewPlanValue(sqlparser.ValTuple{t})
		sym.Assert(err != nil, "a tuple within a tuple is accepted")
	}
	sym.Cover("end")
}

// HC19Set: the values of SET.
func HC19Set() {
	var scopeText, keyPrefix, scope string
	scope = sqlparser.SessionStr
	switch sym.Choice(6) {
	case 1:
		scopeText = "global "
	case 2:
		scopeText = "Session "
	case 3:
		keyPrefix, scope = "@@global.", sqlparser.GlobalStr
	case 4:
		keyPrefix = "@@SESSION."
	case 5:
		keyPrefix = "@@"
	}
	name := []byte{sym.ByteIn("jkqJKQ"), sym.ByteIn("jkqJKQ")}
	key := []byte{name[0] | 0x20, name[1] | 0x20}
	var text string
	var want interface{}
	ok := true
	switch sym.Choice(9) {
	case 0:
		d := []byte{sym.ByteRange('0', '9'), sym.ByteRange('0', '9')}
		text = string(d)
		want = int64(d[0]-'0')*10 + int64(d[1]-'0')
	case 1:
		b := []byte{sym.ByteRange(' ', '~'), sym.ByteRange(' ', '~')}
		for i := range b {
			sym.Assume(b[i] != '\'' && b[i] != '\\')
		}
		text = "'" + string(b) + "'"
		low := []byte{b[0], b[1]}
		for i := range low {
			if 'A' <= low[i] && low[i] <= 'Z' {
				low[i] |= 0x20
			}
		}
		want = string(low)
	case 2:
		text, want = "true", int64(1)
	case 3:
		text, want = "FALSE", int64(0)
	case 4:
		text, want = "null", nil
	case 5:
		text, want = "default", "default"
	case 6:
		text, want = "on", "on"
	case 7:
		text, ok = "1.5", false
	case 8:
		text, ok = "a+1", false
	}
	got, s, err := sqlparser.ExtractSetValues("set " + scopeText + keyPrefix + string(name) + " = " + text)
	if scopeText != "" && keyPrefix != "" {
		ok = false
	}
	sym.Assert((err == nil) == ok, "a value of SET is refused or what is none is accepted")
	sym.Cover("end")
	if !ok {
		return
	}
	wantScope := ""
	if scopeText == "global " {
		wantScope = "global"
	} else if scopeText != "" {
		wantScope = "session"
	}
	sym.Assert(s == wantScope, "another scope is set")
	sym.Assert(len(got) == 1, "not one value is set")
	v, found := got[sqlparser.SetKey{Key: string(key), Scope: scope}]
	sym.Assert(found, "another variable is set")
	sym.Assert(v == want, "another value is set")
	sym.Cover("kept")
}
