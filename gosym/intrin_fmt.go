package main

import (
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"go/types"
)

type fmtFlags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func cstr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

func concatAll(xs ...*Str) *Str {
	r := emptyStr
	for _, x := range xs {
		r = concat(r, x)
	}
	return r
}

// protect runs f, catching a Go panic of the interpreted program.
func (m *Machine) protect(f func()) (gp *goPanic) {
	sp, depth, fc := m.sp, m.depth, m.fcur
	defer func() {
		if r := recover(); r != nil {
			g, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			m.sp, m.depth, m.fcur = sp, depth, fc
			gp = g
		}
	}()
	f()
	return nil
}

func (m *Machine) badVerb(i *Iface, verb byte) *Str {
	if i == nil {
		return cstr("%!" + string(rune(verb)) + "(<nil>)")
	}
	return concatAll(cstr("%!"+string(rune(verb))+"("+i.rt.String()+"="), m.fmtPlain(i.rt, i.v, 'v', fmtFlags{}, 0), cstr(")"))
}

func (m *Machine) fmtValue(i *Iface, verb byte, fl fmtFlags) *Str {
	return m.fmtAny(i, verb, fl, 0)
}

func (m *Machine) methodString(i *Iface, verb byte, fl fmtFlags) (*Str, bool) {
	for _, n := range []string{"Error", "String"} {
		f := m.ex.prog.method(i.rt, n, nil)
		if f == nil {
			continue
		}
		sig := f.ssa.Signature
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
			continue
		}
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		var out *Str
		gp := m.protect(func() { out = strOf(m.call(f, []Value{i.v}, nil, nil)) })
		if gp != nil {
			if i.rt.kind == KPtr && i.v.o == nil {
				return cstr("<nil>"), true
			}
			return concatAll(cstr("%!"+string(rune(verb))+"(PANIC="+n+" method: "), cstr(gp.msg), cstr(")")), true
		}
		return m.fmtStr(out, verb, fl), true
	}
	return nil, false
}

func (m *Machine) fmtAny(i *Iface, verb byte, fl fmtFlags, depth int) *Str {
	if i == nil {
		if verb == 'v' || verb == 'T' {
			return m.pad(cstr("<nil>"), fl)
		}
		return m.badVerb(nil, verb)
	}
	if verb == 'T' {
		return m.pad(cstr(strings.ReplaceAll(strings.ReplaceAll(i.rt.String(), "interface{}", "interface {}"), "any", "interface {}")), fl)
	}
	if verb == 'p' {
		return cstr("0xc000012345")
	}
	switch verb {
	case 'v', 's', 'q', 'x', 'X':
		if !fl.sharp {
			if s, ok := m.methodString(i, verb, fl); ok {
				return s
			}
		}
	}
	return m.fmtPlain(i.rt, i.v, verb, fl, depth)
}

func (m *Machine) fmtStr(s *Str, verb byte, fl fmtFlags) *Str {
	if fl.hasPrec && (verb == 's' || verb == 'v' || verb == 'q') {
		if s.sym == nil {
			n := 0
			for i := range s.s {
				if n == fl.prec {
					s = s.slice(0, i)
					break
				}
				n++
			}
		} else {
			if !m.asciiOnly(s) {
				return m.fmtStr(cstr(m.concStr(s)), verb, fl)
			}
			if fl.prec < s.Len() {
				s = s.slice(0, fl.prec)
			}
		}
	}
	switch verb {
	case 'v', 's':
		if verb == 'v' && fl.sharp {
			return m.quote(s)
		}
		return m.pad(s, fl)
	case 'q':
		return m.pad(m.quote(s), fl)
	case 'x', 'X':
		digits := "0123456789abcdef"
		if verb == 'X' {
			digits = "0123456789ABCDEF"
		}
		out := make([]*Term, 0, 2*s.Len())
		for i := 0; i < s.Len(); i++ {
			t := s.at(i)
			if t.op == OConst {
				out = append(out, byteConst[digits[t.k>>4]], byteConst[digits[t.k&15]])
				continue
			}
			hx := func(n *Term) *Term {
				a := m.tt.Bin(OAdd, n, m.tt.Const(8, '0'))
				b := m.tt.Bin(OAdd, n, m.tt.Const(8, uint64(digits[10])-10))
				return m.tt.Ite(m.tt.Cmp(OUlt, n, m.tt.Const(8, 10)), a, b)
			}
			out = append(out, hx(m.tt.Bin(OLshr, t, m.tt.Const(8, 4))), hx(m.tt.Bin(OBvAnd, t, m.tt.Const(8, 15))))
		}
		return m.pad(strOf(m.mkSym(out)), fl)
	}
	return concatAll(cstr("%!"+string(rune(verb))+"(string="), s, cstr(")"))
}

func (m *Machine) quote(s *Str) *Str {
	if s.sym == nil {
		return cstr(strconv.Quote(s.s))
	}
	// printable ASCII without quotes or backslashes passes through
	out := []*Term{byteConst['"']}
	for i := 0; i < s.Len(); i++ {
		t := s.at(i)
		if t.op != OConst {
			ok := m.tt.And(m.tt.And(m.tt.Cmp(OUle, m.tt.Const(8, 32), t), m.tt.Cmp(OUle, t, m.tt.Const(8, 126))),
				m.tt.And(m.tt.Not(m.tt.Eq(t, byteConst['"'])), m.tt.Not(m.tt.Eq(t, byteConst['\\']))))
			if m.decide(ok) {
				out = append(out, t)
				continue
			}
			return cstr(strconv.Quote(m.concStr(s)))
		}
		if t.k >= 0x80 {
			return cstr(strconv.Quote(m.concStr(s)))
		}
		q := strconv.Quote(string(rune(t.k)))
		for j := 1; j < len(q)-1; j++ {
			out = append(out, byteConst[q[j]])
		}
	}
	out = append(out, byteConst['"'])
	return strOf(m.mkSym(out))
}

func (m *Machine) pad(s *Str, fl fmtFlags) *Str {
	if !fl.hasWid {
		return s
	}
	n := s.Len()
	if s.sym == nil {
		n = utf8.RuneCountInString(s.s)
	} else if !m.asciiOnly(s) {
		n = utf8.RuneCountInString(m.concStr(s))
	}
	if n >= fl.wid {
		return s
	}
	if fl.minus {
		return concat(s, cstr(strings.Repeat(" ", fl.wid-n)))
	}
	p := " "
	if fl.zero {
		p = "0"
	}
	return concat(cstr(strings.Repeat(p, fl.wid-n)), s)
}

func goFmt(fl fmtFlags, verb byte) string {
	var sb strings.Builder
	sb.WriteByte('%')
	if fl.plus {
		sb.WriteByte('+')
	}
	if fl.minus {
		sb.WriteByte('-')
	}
	if fl.sharp {
		sb.WriteByte('#')
	}
	if fl.space {
		sb.WriteByte(' ')
	}
	if fl.zero {
		sb.WriteByte('0')
	}
	if fl.hasWid {
		sb.WriteString(strconv.Itoa(fl.wid))
	}
	if fl.hasPrec {
		sb.WriteString("." + strconv.Itoa(fl.prec))
	}
	sb.WriteByte(verb)
	return sb.String()
}

func (m *Machine) fmtPlain(rt *RType, v Value, verb byte, fl fmtFlags, depth int) *Str {
	if depth > 12 {
		m.unsupported("deep fmt")
	}
	bad := func() *Str {
		return concatAll(cstr("%!"+string(rune(verb))+"("+rt.String()+"="), m.fmtPlain(rt, v, 'v', fmtFlags{}, depth), cstr(")"))
	}
	elem := func(et *RType, ev Value) *Str {
		if et.kind == KIface {
			i, _ := ev.o.(*Iface)
			if i == nil {
				return cstr("<nil>")
			}
			return m.fmtAny(i, verb, fl, depth+1)
		}
		return m.fmtAny(&Iface{et, ev}, verb, fl, depth+1)
	}
	switch rt.kind {
	case KBool:
		if verb != 'v' && verb != 't' {
			return bad()
		}
		b := v.n != 0
		if t := v.term(); t != nil {
			b = m.decide(t)
		}
		return m.pad(cstr(strconv.FormatBool(b)), fl)
	case KInt:
		switch verb {
		case 'v', 'd':
			if v.o != nil {
				s := m.itoa(v, rt)
				if fl.plus && !m.decide(m.tt.Cmp(OSlt, v.term(), m.tt.Const(rt.bits, 0))) {
					s = concat(cstr("+"), s)
				}
				return m.pad(s, fl)
			}
			if rt.signed {
				return cstr(sprintf(goFmt(fl, 'd'), int64(v.n)))
			}
			return cstr(sprintf(goFmt(fl, 'd'), v.n))
		case 'c':
			return m.pad(m.encodeRune(v, rt), fl)
		case 'x', 'X', 'o', 'b', 'q', 'U':
			n := uint64(m.concInt(v, rt))
			if rt.signed {
				return cstr(sprintf(goFmt(fl, verb), int64(n)))
			}
			return cstr(sprintf(goFmt(fl, verb), n))
		}
		return bad()
	case KFloat:
		switch verb {
		case 'v', 'f', 'g', 'e', 'G', 'E', 'F':
			if v.o != nil {
				m.unsupported("symbolic float")
			}
			f := math.Float64frombits(v.n)
			if rt.bits == 32 {
				return cstr(sprintf(goFmt(fl, verb), float32(f)))
			}
			return cstr(sprintf(goFmt(fl, verb), f))
		}
		return bad()
	case KString:
		return m.fmtStr(strOf(v), verb, fl)
	case KPtr, KUnsafe:
		if v.o == nil {
			if verb == 'v' {
				return m.pad(cstr("<nil>"), fl)
			}
			return cstr("%!" + string(rune(verb)) + "(" + rt.String() + "=<nil>)")
		}
		if depth == 0 && rt.elem != nil {
			switch rt.elem.kind {
			case KStruct, KArray, KSlice, KMap:
				if c, ok := v.o.(*Value); ok {
					return concat(cstr("&"), m.fmtPlain(rt.elem, *c, verb, fl, depth+1))
				}
			}
		}
		if verb != 'v' && verb != 'p' && verb != 'x' && verb != 'd' {
			return concatAll(cstr("%!"+string(rune(verb))+"("+rt.String()+"="), cstr("0xc000012345"), cstr(")"))
		}
		return cstr("0xc000012345")
	case KFunc, KChan:
		if v.o == nil {
			return cstr("<nil>")
		}
		return cstr("0xc000012345")
	case KSlice, KArray:
		var cells []Value
		if rt.kind == KSlice {
			cells = m.sliceOf(v)
		} else {
			cells = v.o.(*Agg).f
		}
		if rt.elem.kind == KInt && rt.elem.bits == 8 && !rt.elem.signed && (verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
			return m.fmtStr(bytesToStr(cells), verb, fl)
		}
		out := cstr("[")
		for i, c := range cells {
			if i > 0 {
				out = concat(out, cstr(" "))
			}
			out = concat(out, elem(rt.elem, c))
		}
		return concat(out, cstr("]"))
	case KStruct:
		a := v.o.(*Agg)
		out := cstr("{")
		for i, c := range a.f {
			if i > 0 {
				out = concat(out, cstr(" "))
			}
			if fl.plus || fl.sharp {
				out = concat(out, cstr(rt.fnames[i]+":"))
			}
			ft := rt.fields[i]
			if st, ok := rt.t.Underlying().(*types.Struct); ok && !st.Field(i).Exported() {
				// unexported fields: methods are not called
				if ft.kind == KIface {
					ii, _ := c.o.(*Iface)
					if ii == nil {
						out = concat(out, cstr("<nil>"))
					} else {
						out = concat(out, m.fmtPlain(ii.rt, ii.v, verb, fl, depth+1))
					}
				} else {
					out = concat(out, m.fmtPlain(ft, c, verb, fl, depth+1))
				}
				continue
			}
			out = concat(out, elem(ft, c))
		}
		return concat(out, cstr("}"))
	case KMap:
		mp, _ := v.o.(*Map)
		out := cstr("map[")
		if mp != nil {
			type kv struct {
				k    string
				n    uint64
				ks   *Str
				v    Value
				conc bool
			}
			var es []kv
			for _, e := range mp.ents {
				if e.dead {
					continue
				}
				x := kv{v: e.v, n: e.k.n}
				x.ks = elem(rt.key, e.k)
				if x.ks.sym != nil {
					x.ks = cstr(m.concStr(x.ks))
				}
				x.k = x.ks.s
				es = append(es, x)
			}
			num := rt.key.kind == KInt
			sort.SliceStable(es, func(i, j int) bool {
				if num {
					return int64(es[i].n) < int64(es[j].n)
				}
				return es[i].k < es[j].k
			})
			for i, e := range es {
				if i > 0 {
					out = concat(out, cstr(" "))
				}
				out = concatAll(out, e.ks, cstr(":"), elem(rt.elem, e.v))
			}
		}
		return concat(out, cstr("]"))
	case KIface:
		i, _ := v.o.(*Iface)
		return m.fmtAny(i, verb, fl, depth+1)
	}
	m.unsupported("fmt of %s", rt)
	return nil
}

func ifaceOf(v Value) *Iface { i, _ := v.o.(*Iface); return i }

// sprintf implements the formatting directives over symbolic arguments.
func (m *Machine) sprintfStr(format *Str, args []Value) (out *Str, wrapped []Value) {
	out = emptyStr
	n := format.Len()
	isPct := func(i int) bool {
		t := format.at(i)
		if t.op == OConst {
			return t.k == '%'
		}
		return m.decide(m.tt.Eq(t, byteConst['%']))
	}
	ch := func(i int) byte {
		t := format.at(i)
		if t.op == OConst {
			return byte(t.k)
		}
		return byte(m.concretize(t))
	}
	argN := 0
	for i := 0; i < n; {
		j := i
		for j < n && !isPct(j) {
			j++
		}
		out = concat(out, format.slice(i, j))
		i = j
		if i >= n {
			break
		}
		i++
		var fl fmtFlags
	flags:
		for i < n {
			switch ch(i) {
			case '+':
				fl.plus = true
			case '-':
				fl.minus, fl.zero = true, false
			case '#':
				fl.sharp = true
			case ' ':
				fl.space = true
			case '0':
				fl.zero = !fl.minus
			default:
				break flags
			}
			i++
		}
		if i < n && ch(i) == '*' {
			m.unsupported("fmt: * width")
		}
		if i < n && ch(i) == '[' {
			m.unsupported("fmt: argument index")
		}
		for i < n && ch(i) >= '0' && ch(i) <= '9' {
			fl.wid = fl.wid*10 + int(ch(i)-'0')
			fl.hasWid = true
			i++
		}
		if i < n && ch(i) == '.' {
			i++
			fl.hasPrec = true
			for i < n && ch(i) >= '0' && ch(i) <= '9' {
				fl.prec = fl.prec*10 + int(ch(i)-'0')
				i++
			}
		}
		if i >= n {
			out = concat(out, cstr("%!(NOVERB)"))
			break
		}
		verb := ch(i)
		if verb >= 0x80 {
			m.unsupported("fmt: non-ASCII verb")
		}
		i++
		switch {
		case verb == '%':
			out = concat(out, cstr("%"))
			continue
		case argN >= len(args):
			out = concat(out, cstr("%!"+string(rune(verb))+"(MISSING)"))
			continue
		}
		a := ifaceOf(args[argN])
		if verb == 'w' {
			wrapped = append(wrapped, args[argN])
			verb = 'v'
		}
		argN++
		out = concat(out, m.fmtAny(a, verb, fl, 0))
	}
	if argN < len(args) {
		out = concat(out, cstr("%!(EXTRA "))
		for k, x := range args[argN:] {
			if k > 0 {
				out = concat(out, cstr(", "))
			}
			a := ifaceOf(x)
			if a == nil {
				out = concat(out, cstr("<nil>"))
				continue
			}
			out = concatAll(out, cstr(a.rt.String()+"="), m.fmtAny(a, 'v', fmtFlags{}, 0))
		}
		out = concat(out, cstr(")"))
	}
	return
}

func (m *Machine) sprint(args []Value, ln bool) *Str {
	out := emptyStr
	prevStr := true
	for i, x := range args {
		a := ifaceOf(x)
		isStr := a != nil && a.rt.kind == KString
		if i > 0 && (ln || !isStr && !prevStr) {
			out = concat(out, cstr(" "))
		}
		out = concat(out, m.fmtAny(a, 'v', fmtFlags{}, 0))
		prevStr = isStr
	}
	if ln {
		out = concat(out, cstr("\n"))
	}
	return out
}

func (m *Machine) fwrite(w Value, s *Str) {
	i := ifaceOf(w)
	if i == nil {
		m.nilDeref()
	}
	if o, ok := i.v.o.(*NObj); ok && o.kind == "file" {
		if o.v.(int) == 1 {
			m.stdout = append(m.stdout, s)
		}
		return
	}
	m.invoke(w, "Write", nil, []Value{m.strBytes(s)})
}

func regFmt() {
	reg("fmt.Sprintf", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s, _ := m.sprintfStr(strOf(a[0]), m.sliceOf(a[1]))
		return strVal(s), true
	})
	reg("fmt.Errorf", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s, w := m.sprintfStr(strOf(a[0]), m.sliceOf(a[1]))
		if len(w) == 1 && m.ex.prog.rtWrap != nil {
			cell := m.newCell(Value{o: &Agg{[]Value{strVal(s), w[0]}}})
			return Value{o: &Iface{m.ex.prog.rtWrap, Value{o: cell}}}, true
		}
		if len(w) > 1 {
			m.unsupported("fmt.Errorf with several %%w")
		}
		cell := m.newCell(Value{o: &Agg{[]Value{strVal(s)}}})
		return Value{o: &Iface{m.ex.prog.rtError, Value{o: cell}}}, true
	})
	pr := func(m *Machine, s *Str) Value {
		m.stdout = append(m.stdout, s)
		return tuple(intVal(s.Len()), Value{})
	}
	reg("fmt.Printf", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s, _ := m.sprintfStr(strOf(a[0]), m.sliceOf(a[1]))
		return pr(m, s), true
	})
	reg("fmt.Println", func(m *Machine, fn *Func, a []Value) (Value, bool) { return pr(m, m.sprint(m.sliceOf(a[0]), true)), true })
	reg("fmt.Print", func(m *Machine, fn *Func, a []Value) (Value, bool) { return pr(m, m.sprint(m.sliceOf(a[0]), false)), true })
	reg("fmt.Sprintln", func(m *Machine, fn *Func, a []Value) (Value, bool) { return strVal(m.sprint(m.sliceOf(a[0]), true)), true })
	reg("fmt.Sprint", func(m *Machine, fn *Func, a []Value) (Value, bool) { return strVal(m.sprint(m.sliceOf(a[0]), false)), true })
	fp := func(m *Machine, w Value, s *Str) (Value, bool) {
		m.fwrite(w, s)
		return tuple(intVal(s.Len()), Value{}), true
	}
	reg("fmt.Fprintf", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s, _ := m.sprintfStr(strOf(a[1]), m.sliceOf(a[2]))
		return fp(m, a[0], s)
	})
	reg("fmt.Fprintln", func(m *Machine, fn *Func, a []Value) (Value, bool) { return fp(m, a[0], m.sprint(m.sliceOf(a[1]), true)) })
	reg("fmt.Fprint", func(m *Machine, fn *Func, a []Value) (Value, bool) { return fp(m, a[0], m.sprint(m.sliceOf(a[1]), false)) })
	reg("log.Printf", noop)
}
