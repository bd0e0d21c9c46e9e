package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"unicode"
	"unicode/utf8"
)

var intrinsics = map[string]intrinsic{}

func decodeRuneString(s string) (rune, int) { return utf8.DecodeRuneInString(s) }
func fullRune(b []byte) bool                 { return utf8.FullRune(b) }

// native registers a pure Go function used when all arguments are concrete.
func native(name string, f any) { intrinsics[name] = nativeWrap(f, intrinsics[name]) }

func nativeWrap(f any, next intrinsic) intrinsic {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	nin := ft.NumIn()
	return func(m *Machine, fn *Func, args []Value) (Value, bool) {
		in := make([]reflect.Value, nin)
		for i := 0; i < nin; i++ {
			v, ok := toNative(args[i], ft.In(i))
			if !ok {
				if next != nil {
					return next(m, fn, args)
				}
				return Value{}, false
			}
			in[i] = v
		}
		var out []reflect.Value
		if ft.IsVariadic() {
			out = fv.CallSlice(in)
		} else {
			out = fv.Call(in)
		}
		switch len(out) {
		case 0:
			return Value{}, true
		case 1:
			return m.fromNative(out[0]), true
		}
		t := make([]Value, len(out))
		for i := range out {
			t[i] = m.fromNative(out[i])
		}
		return Value{o: &Tuple{t}}, true
	}
}

func toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s := strOf(v)
		if s.sym != nil {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(s.s), true
	case reflect.Bool:
		if v.o != nil {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(v.n != 0), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.o != nil {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		r.SetInt(int64(v.n))
		return r, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.o != nil {
			return reflect.Value{}, false
		}
		r := reflect.New(t).Elem()
		r.SetUint(v.n)
		return r, true
	case reflect.Float64:
		return reflect.ValueOf(v.float()), true
	case reflect.Slice:
		s, ok := v.o.(*Slice)
		if !ok {
			return reflect.Zero(t), v.o == nil
		}
		r := reflect.MakeSlice(t, len(s.a), len(s.a))
		for i := range s.a {
			e, ok := toNative(s.a[i], t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			r.Index(i).Set(e)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (m *Machine) fromNative(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return mkStr(v.String())
	case reflect.Bool:
		return boolVal(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Value{n: uint64(v.Int())}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Value{n: v.Uint()}
	case reflect.Float64, reflect.Float32:
		return floatVal(v.Float())
	case reflect.Slice:
		if v.IsNil() {
			return Value{}
		}
		cells := m.newCells(v.Len())
		for i := range cells {
			cells[i] = m.fromNative(v.Index(i))
		}
		return Value{o: &Slice{cells}}
	}
	panic("fromNative " + v.Kind().String())
}

func tuple(vs ...Value) Value { return Value{o: &Tuple{vs}} }

// ---- symbolic string helpers ----

func (m *Machine) hasAt(s *Str, i int, sub *Str) *Term {
	if i < 0 || i+sub.Len() > s.Len() {
		return m.tt.F
	}
	return m.eqStr(s.slice(i, i+sub.Len()), sub)
}

func (m *Machine) symIndex(s, sub *Str) int {
	n := sub.Len()
	for i := 0; i+n <= s.Len(); i++ {
		if m.decide(m.hasAt(s, i, sub)) {
			return i
		}
	}
	return -1
}

func (m *Machine) anyIndex(s, sub *Str) *Term {
	r := m.tt.F
	for i := 0; i+sub.Len() <= s.Len(); i++ {
		r = m.tt.Or(r, m.hasAt(s, i, sub))
	}
	return r
}

func isConcrete(s *Str) bool { return s.sym == nil }

// mapASCII lowers/uppers a string; non-ASCII symbolic bytes are decided.
func (m *Machine) mapASCII(s *Str, lower bool) (*Str, bool) {
	out := make([]*Term, s.Len())
	for i := range out {
		t := s.at(i)
		if t.op != OConst {
			if !m.decide(m.tt.Cmp(OUlt, t, m.tt.Const(8, 0x80))) {
				return nil, false
			}
		} else if t.k >= 0x80 {
			return nil, false
		}
		lo, hi := uint64('A'), uint64('Z')
		if !lower {
			lo, hi = 'a', 'z'
		}
		in := m.tt.And(m.tt.Cmp(OUle, m.tt.Const(8, lo), t), m.tt.Cmp(OUle, t, m.tt.Const(8, hi)))
		d := uint64(32)
		if !lower {
			d = ^uint64(31)
		}
		if kv, ok := m.lookupKnown(in); ok {
			in = m.tt.Bool(kv)
		}
		out[i] = m.tt.Ite(in, m.tt.Bin(OAdd, t, m.tt.Const(8, d)), t)
	}
	return strOf(m.mkSym(out)), true
}

func (m *Machine) inSet(t *Term, set string) *Term {
	r := m.tt.F
	for i := 0; i < len(set); i++ {
		r = m.tt.Or(r, m.tt.Eq(t, byteConst[set[i]]))
	}
	return r
}

func (m *Machine) strSlice(parts []*Str) Value {
	cells := m.newCells(len(parts))
	for i, p := range parts {
		cells[i] = strVal(p)
	}
	return Value{o: &Slice{cells}}
}

func (m *Machine) split(s, sep *Str, n int, keep int) Value {
	if n == 0 {
		return Value{}
	}
	var parts []*Str
	i, start := 0, 0
	for n < 0 || len(parts) < n-1 {
		found := false
		for ; i+sep.Len() <= s.Len(); i++ {
			if m.decide(m.hasAt(s, i, sep)) {
				found = true
				break
			}
		}
		if !found {
			break
		}
		parts = append(parts, s.slice(start, i+keep))
		i += sep.Len()
		start = i
	}
	parts = append(parts, s.slice(start, s.Len()))
	return m.strSlice(parts)
}

func (m *Machine) replace(s, old, nw *Str, n int) *Str {
	if n == 0 {
		return s
	}
	if old.Len() == 0 {
		m.unsupported("replace of empty string in a symbolic string")
	}
	out := emptyStr
	i, start := 0, 0
	for n != 0 {
		found := false
		for ; i+old.Len() <= s.Len(); i++ {
			if m.decide(m.hasAt(s, i, old)) {
				found = true
				break
			}
		}
		if !found {
			break
		}
		out = concat(concat(out, s.slice(start, i)), nw)
		i += old.Len()
		start = i
		n--
	}
	return concat(out, s.slice(start, s.Len()))
}

// asciiOnly makes sure no byte is >= 0x80 (deciding), else reports false.
func (m *Machine) asciiOnly(s *Str) bool {
	for i := 0; i < s.Len(); i++ {
		t := s.at(i)
		if t.op == OConst {
			if t.k >= 0x80 {
				return false
			}
			continue
		}
		if !m.decide(m.tt.Cmp(OUlt, t, m.tt.Const(8, 0x80))) {
			return false
		}
	}
	return true
}

func (m *Machine) trimFunc(s *Str, pred func(t *Term) *Term, left, right bool) *Str {
	i, j := 0, s.Len()
	if left {
		for i < j && m.decide(pred(s.at(i))) {
			i++
		}
	}
	if right {
		for j > i && m.decide(pred(s.at(j-1))) {
			j--
		}
	}
	return s.slice(i, j)
}

const asciiSpaces = "\t\n\v\f\r "

func reg(name string, f intrinsic) { intrinsics[name] = f }

func noop(m *Machine, fn *Func, args []Value) (Value, bool) { return m.zeroResults(fn), true }

func unsup(name string) intrinsic {
	return func(m *Machine, fn *Func, args []Value) (Value, bool) {
		m.unsupported("call of %s", name)
		return Value{}, false
	}
}

func init() {
	// symbolic versions first; native() wraps them
	reg("strings.Index", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return intVal(m.symIndex(strOf(a[0]), strOf(a[1]))), true
	})
	native("strings.Index", strings.Index)
	reg("strings.Contains", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.boolTerm(m.anyIndex(strOf(a[0]), strOf(a[1]))), true
	})
	native("strings.Contains", strings.Contains)
	reg("strings.HasPrefix", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.boolTerm(m.hasAt(strOf(a[0]), 0, strOf(a[1]))), true
	})
	native("strings.HasPrefix", strings.HasPrefix)
	reg("strings.HasSuffix", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s, t := strOf(a[0]), strOf(a[1])
		return m.boolTerm(m.hasAt(s, s.Len()-t.Len(), t)), true
	})
	native("strings.HasSuffix", strings.HasSuffix)
	reg("strings.TrimPrefix", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s, t := strOf(a[0]), strOf(a[1])
		if m.decide(m.hasAt(s, 0, t)) {
			return strVal(s.slice(t.Len(), s.Len())), true
		}
		return a[0], true
	})
	native("strings.TrimPrefix", strings.TrimPrefix)
	reg("strings.TrimSuffix", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s, t := strOf(a[0]), strOf(a[1])
		if m.decide(m.hasAt(s, s.Len()-t.Len(), t)) {
			return strVal(s.slice(0, s.Len()-t.Len())), true
		}
		return a[0], true
	})
	native("strings.TrimSuffix", strings.TrimSuffix)
	reg("strings.ToLower", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if r, ok := m.mapASCII(strOf(a[0]), true); ok {
			return strVal(r), true
		}
		return Value{}, false
	})
	native("strings.ToLower", strings.ToLower)
	reg("strings.ToUpper", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if r, ok := m.mapASCII(strOf(a[0]), false); ok {
			return strVal(r), true
		}
		return Value{}, false
	})
	native("strings.ToUpper", strings.ToUpper)
	reg("bytes.ToLower", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if a[0].o == nil {
			return Value{}, false
		}
		if r, ok := m.mapASCII(bytesToStr(a[0].o.(*Slice).a), true); ok {
			return m.strBytes(r), true
		}
		return Value{}, false
	})
	native("bytes.ToLower", bytes.ToLower)
	reg("bytes.ToUpper", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if a[0].o == nil {
			return Value{}, false
		}
		if r, ok := m.mapASCII(bytesToStr(a[0].o.(*Slice).a), false); ok {
			return m.strBytes(r), true
		}
		return Value{}, false
	})
	native("bytes.ToUpper", bytes.ToUpper)
	reg("strings.EqualFold", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		x, ok1 := m.mapASCII(strOf(a[0]), true)
		if !ok1 {
			return Value{}, false
		}
		y, ok2 := m.mapASCII(strOf(a[1]), true)
		if !ok2 {
			return Value{}, false
		}
		return m.boolTerm(m.eqStr(x, y)), true
	})
	native("strings.EqualFold", strings.EqualFold)
	reg("strings.Split", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if strOf(a[1]).Len() == 0 {
			return Value{}, false
		}
		return m.split(strOf(a[0]), strOf(a[1]), -1, 0), true
	})
	native("strings.Split", strings.Split)
	reg("strings.SplitN", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if strOf(a[1]).Len() == 0 || a[2].o != nil {
			return Value{}, false
		}
		return m.split(strOf(a[0]), strOf(a[1]), a[2].int(), 0), true
	})
	native("strings.SplitN", strings.SplitN)
	reg("strings.Replace", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if strOf(a[1]).Len() == 0 || a[3].o != nil {
			return Value{}, false
		}
		return strVal(m.replace(strOf(a[0]), strOf(a[1]), strOf(a[2]), a[3].int())), true
	})
	native("strings.Replace", strings.Replace)
	reg("strings.ReplaceAll", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if strOf(a[1]).Len() == 0 {
			return Value{}, false
		}
		return strVal(m.replace(strOf(a[0]), strOf(a[1]), strOf(a[2]), -1)), true
	})
	native("strings.ReplaceAll", strings.ReplaceAll)
	reg("strings.Join", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		out := emptyStr
		for i, v := range m.sliceOf(a[0]) {
			if i > 0 {
				out = concat(out, strOf(a[1]))
			}
			out = concat(out, strOf(v))
		}
		return strVal(out), true
	})
	reg("strings.TrimSpace", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := strOf(a[0])
		// non-ASCII edges go through the real implementation
		i, j := 0, s.Len()
		for i < j {
			t := s.at(i)
			if t.op == OConst && t.k >= 0x80 || t.op != OConst && !m.decide(m.tt.Cmp(OUlt, t, m.tt.Const(8, 0x80))) {
				return Value{}, false
			}
			if !m.decide(m.inSet(t, asciiSpaces)) {
				break
			}
			i++
		}
		for j > i {
			t := s.at(j - 1)
			if t.op == OConst && t.k >= 0x80 || t.op != OConst && !m.decide(m.tt.Cmp(OUlt, t, m.tt.Const(8, 0x80))) {
				return Value{}, false
			}
			if !m.decide(m.inSet(t, asciiSpaces)) {
				break
			}
			j--
		}
		return strVal(s.slice(i, j)), true
	})
	native("strings.TrimSpace", strings.TrimSpace)
	for _, w := range []struct {
		n    string
		l, r bool
		f    any
	}{{"strings.Trim", true, true, strings.Trim}, {"strings.TrimLeft", true, false, strings.TrimLeft}, {"strings.TrimRight", false, true, strings.TrimRight}} {
		w := w
		reg(w.n, func(m *Machine, fn *Func, a []Value) (Value, bool) {
			set := strOf(a[1])
			if set.sym != nil {
				return Value{}, false
			}
			for i := 0; i < len(set.s); i++ {
				if set.s[i] >= 0x80 {
					return Value{}, false
				}
			}
			return strVal(m.trimFunc(strOf(a[0]), func(t *Term) *Term { return m.inSet(t, set.s) }, w.l, w.r)), true
		})
		native(w.n, w.f)
	}
	native("strings.LastIndex", strings.LastIndex)
	native("strings.IndexAny", strings.IndexAny)
	native("strings.IndexRune", strings.IndexRune)
	native("strings.Fields", strings.Fields)
	native("strings.Repeat", strings.Repeat)
	native("strings.Title", strings.Title)
	native("strings.Count", strings.Count)
	native("bytes.Equal", bytes.Equal)
	native("unicode.IsSpace", unicode.IsSpace)
	native("unicode.IsLetter", unicode.IsLetter)
	native("unicode.IsDigit", unicode.IsDigit)
	native("unicode.IsNumber", unicode.IsNumber)
	native("unicode.IsUpper", unicode.IsUpper)
	native("unicode.IsLower", unicode.IsLower)
	native("unicode.IsPrint", unicode.IsPrint)
	native("unicode.IsControl", unicode.IsControl)
	native("unicode.IsPunct", unicode.IsPunct)
	native("unicode.ToLower", unicode.ToLower)
	native("unicode.ToUpper", unicode.ToUpper)
	native("unicode/utf8.RuneCountInString", utf8.RuneCountInString)
	native("strconv.Quote", strconv.Quote)
	native("strconv.FormatFloat", strconv.FormatFloat)
	native("net/url.QueryEscape", url.QueryEscape)
	native("net/url.PathEscape", url.PathEscape)

	// unicode/strconv with symbolic args
	symBool := func(name string, f func(m *Machine, t *Term) *Term) {
		nat := intrinsics[name]
		reg(name, func(m *Machine, fn *Func, a []Value) (Value, bool) {
			t := a[0].term()
			if t == nil {
				return nat(m, fn, a)
			}
			if !m.decide(m.tt.Cmp(OUlt, t, m.tt.Const(t.w, 0x80))) {
				return nat(m, fn, []Value{{n: m.concretize(t)}})
			}
			return m.boolTerm(f(m, t)), true
		})
	}
	rng := func(m *Machine, t *Term, lo, hi uint64) *Term {
		return m.tt.And(m.tt.Cmp(OUle, m.tt.Const(t.w, lo), t), m.tt.Cmp(OUle, t, m.tt.Const(t.w, hi)))
	}
	symBool("unicode.IsSpace", func(m *Machine, t *Term) *Term {
		return m.tt.Or(rng(m, t, 9, 13), m.tt.Eq(t, m.tt.Const(t.w, 32)))
	})
	symBool("unicode.IsDigit", func(m *Machine, t *Term) *Term { return rng(m, t, '0', '9') })
	symBool("unicode.IsNumber", func(m *Machine, t *Term) *Term { return rng(m, t, '0', '9') })
	symBool("unicode.IsLetter", func(m *Machine, t *Term) *Term {
		return m.tt.Or(rng(m, t, 'a', 'z'), rng(m, t, 'A', 'Z'))
	})
	symBool("unicode.IsUpper", func(m *Machine, t *Term) *Term { return rng(m, t, 'A', 'Z') })
	symBool("unicode.IsLower", func(m *Machine, t *Term) *Term { return rng(m, t, 'a', 'z') })
	symBool("unicode.IsControl", func(m *Machine, t *Term) *Term {
		return m.tt.Or(m.tt.Cmp(OUlt, t, m.tt.Const(t.w, 32)), m.tt.Eq(t, m.tt.Const(t.w, 127)))
	})
	symBool("unicode.IsPrint", func(m *Machine, t *Term) *Term { return rng(m, t, 32, 126) })
	for _, n := range []string{"unicode.ToLower", "unicode.ToUpper"} {
		n := n
		nat := intrinsics[n]
		reg(n, func(m *Machine, fn *Func, a []Value) (Value, bool) {
			t := a[0].term()
			if t == nil {
				return nat(m, fn, a)
			}
			if !m.decide(m.tt.Cmp(OUlt, t, m.tt.Const(t.w, 0x80))) {
				return nat(m, fn, []Value{{n: m.concretize(t)}})
			}
			if n == "unicode.ToLower" {
				return m.termVal(m.tt.Ite(rng(m, t, 'A', 'Z'), m.tt.Bin(OAdd, t, m.tt.Const(t.w, 32)), t), rtInt32), true
			}
			return m.termVal(m.tt.Ite(rng(m, t, 'a', 'z'), m.tt.Bin(OSub, t, m.tt.Const(t.w, 32)), t), rtInt32), true
		})
	}
	reg("strconv.Itoa", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return strVal(m.itoa(a[0], rtInt)), true
	})
	reg("strconv.FormatInt", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if a[1].int() != 10 {
			return mkStr(strconv.FormatInt(m.concInt(a[0], rtInt), a[1].int())), true
		}
		return strVal(m.itoa(a[0], rtInt)), true
	})
	rtU64 := rtypeOf(types.Typ[types.Uint64])
	reg("strconv.FormatUint", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if a[1].int() != 10 {
			return mkStr(strconv.FormatUint(uint64(m.concInt(a[0], rtU64)), a[1].int())), true
		}
		return strVal(m.itoa(a[0], rtU64)), true
	})
	reg("strconv.AppendInt", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := emptyStr
		if a[2].int() != 10 {
			s = &Str{s: strconv.FormatInt(m.concInt(a[1], rtInt), a[2].int())}
		} else {
			s = m.itoa(a[1], rtInt)
		}
		return m.appendStr(a[0], s), true
	})
	reg("strconv.AppendUint", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := emptyStr
		if a[2].int() != 10 {
			s = &Str{s: strconv.FormatUint(uint64(m.concInt(a[1], rtU64)), a[2].int())}
		} else {
			s = m.itoa(a[1], rtU64)
		}
		return m.appendStr(a[0], s), true
	})
	reg("strconv.AppendFloat", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.appendStr(a[0], &Str{s: strconv.FormatFloat(a[1].float(), byte(a[2].n), a[3].int(), a[4].int())}), true
	})
	reg("strconv.ParseFloat", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := m.concStr(strOf(a[0]))
		f, err := strconv.ParseFloat(s, a[1].int())
		if err == nil {
			return tuple(floatVal(f), Value{}), true
		}
		return tuple(floatVal(f), m.mkError(err.Error())), true
	})

	// bytealg (assembly)
	reg("internal/bytealg.IndexByteString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return intVal(m.indexByte(strOf(a[0]), m.toTerm(a[1], 8))), true
	})
	reg("internal/bytealg.IndexByte", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return intVal(m.indexByte(bytesToStr(m.sliceOf(a[0])), m.toTerm(a[1], 8))), true
	})
	reg("internal/bytealg.LastIndexByteString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := strOf(a[0])
		c := m.toTerm(a[1], 8)
		for i := s.Len() - 1; i >= 0; i-- {
			if m.decide(m.tt.Eq(s.at(i), c)) {
				return intVal(i), true
			}
		}
		return intVal(-1), true
	})
	reg("strings.IndexByte", intrinsics["internal/bytealg.IndexByteString"])
	reg("bytes.IndexByte", intrinsics["internal/bytealg.IndexByte"])
	reg("internal/bytealg.CountString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return intVal(m.countByte(strOf(a[0]), m.toTerm(a[1], 8))), true
	})
	reg("internal/bytealg.Count", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return intVal(m.countByte(bytesToStr(m.sliceOf(a[0])), m.toTerm(a[1], 8))), true
	})
	reg("internal/bytealg.Equal", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.boolTerm(m.eqStr(bytesToStr(m.sliceOf(a[0])), bytesToStr(m.sliceOf(a[1])))), true
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	reg("internal/bytealg.Compare", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.compare(bytesToStr(m.sliceOf(a[0])), bytesToStr(m.sliceOf(a[1]))), true
	})
	reg("bytes.Compare", intrinsics["internal/bytealg.Compare"])
	reg("internal/bytealg.CompareString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.compare(strOf(a[0]), strOf(a[1])), true
	})
	reg("strings.Compare", intrinsics["internal/bytealg.CompareString"])
	reg("internal/bytealg.IndexString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return intVal(m.symIndex(strOf(a[0]), strOf(a[1]))), true
	})
	reg("internal/bytealg.Index", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return intVal(m.symIndex(bytesToStr(m.sliceOf(a[0])), bytesToStr(m.sliceOf(a[1])))), true
	})
	reg("bytes.Index", intrinsics["internal/bytealg.Index"])
	reg("bytes.Contains", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.boolTerm(m.anyIndex(bytesToStr(m.sliceOf(a[0])), bytesToStr(m.sliceOf(a[1])))), true
	})
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		n := a[0].int()
		return m.makeSlice(rtUint8, n, n), true
	})
	reg("strings.Clone", func(m *Machine, fn *Func, a []Value) (Value, bool) { return a[0], true })
	reg("internal/stringslite.Clone", func(m *Machine, fn *Func, a []Value) (Value, bool) { return a[0], true })

	// strings.Builder: accumulate in the addr field cell of the real struct
	// (field 1 "buf" is a []byte); we keep a *Str in it.
	bld := func(v Value, m *Machine) *Value {
		p := m.cell(v)
		a := p.o.(*Agg)
		return &a.f[len(a.f)-1]
	}
	bstr := func(c *Value) *Str {
		if s, ok := c.o.(*Str); ok {
			return s
		}
		return emptyStr
	}
	reg("(*strings.Builder).WriteString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		c := bld(a[0], m)
		m.set(c, strVal(concat(bstr(c), strOf(a[1]))))
		return tuple(intVal(strOf(a[1]).Len()), Value{}), true
	})
	reg("(*strings.Builder).Write", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		c := bld(a[0], m)
		s := bytesToStr(m.sliceOf(a[1]))
		m.set(c, strVal(concat(bstr(c), s)))
		return tuple(intVal(s.Len()), Value{}), true
	})
	reg("(*strings.Builder).WriteByte", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		c := bld(a[0], m)
		m.set(c, strVal(concat(bstr(c), strOf(m.mkSym([]*Term{m.toTerm(a[1], 8)})))))
		return Value{}, true
	})
	reg("(*strings.Builder).WriteRune", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		c := bld(a[0], m)
		s := m.encodeRune(a[1], rtInt32)
		m.set(c, strVal(concat(bstr(c), s)))
		return tuple(intVal(s.Len()), Value{}), true
	})
	reg("(*strings.Builder).String", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return strVal(bstr(bld(a[0], m))), true
	})
	reg("(*strings.Builder).Len", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return intVal(bstr(bld(a[0], m)).Len()), true
	})
	reg("(*strings.Builder).Cap", intrinsics["(*strings.Builder).Len"])
	reg("(*strings.Builder).Grow", noop)
	reg("(*strings.Builder).Reset", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		m.set(bld(a[0], m), Value{})
		return Value{}, true
	})

	// sort
	sorter := func(m *Machine, fn *Func, a []Value) (Value, bool) {
		i, _ := a[0].o.(*Iface)
		if i == nil || i.rt.kind != KSlice {
			m.unsupported("sort.Slice on %v", a[0])
		}
		cells := m.sliceOf(i.v)
		// insertion sort calling less(i,j): identical to sort.Slice for len <= 12
		if len(cells) > 12 {
			m.unsupported("sort.Slice of more than 12 elements")
		}
		for x := 1; x < len(cells); x++ {
			for y := x; y > 0; y-- {
				r := m.callValue(a[1], intVal(y), intVal(y-1))
				if !m.decide(m.toTerm(r, 0)) {
					break
				}
				t := m.copyVal(cells[y])
				u := m.copyVal(cells[y-1])
				m.set(&cells[y], u)
				m.set(&cells[y-1], t)
			}
		}
		return Value{}, true
	}
	reg("sort.Slice", sorter)
	reg("sort.SliceStable", sorter)

	// sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "internal/race.Acquire", "internal/race.Release", "internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		reg(n, noop)
	}
	reg("(*sync.Mutex).TryLock", func(m *Machine, fn *Func, a []Value) (Value, bool) { return boolVal(true), true })
	reg("(*internal/godebug.Setting).Value", func(m *Machine, fn *Func, a []Value) (Value, bool) { return Value{}, true })
	reg("(*sync.Once).Do", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		p := m.cell(a[0]).o.(*Agg)
		// mark through the last field (mutex struct): use its first scalar
		c := firstScalar(p)
		if c.n == 77 {
			return Value{}, true
		}
		m.set(c, Value{n: 77})
		m.callValue(a[1])
		return Value{}, true
	})
	reg("(*sync.Pool).Get", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		p := m.cell(a[0]).o.(*Agg)
		nf := p.f[len(p.f)-1]
		if nf.o == nil {
			return Value{}, true
		}
		return m.callValue(nf), true
	})
	reg("(*sync.Pool).Put", noop)
	// sync/atomic functions
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+ty, func(m *Machine, fn *Func, a []Value) (Value, bool) { return *m.cell(a[0]), true })
		reg("sync/atomic.Store"+ty, func(m *Machine, fn *Func, a []Value) (Value, bool) {
			m.set(m.cell(a[0]), a[1])
			return Value{}, true
		})
		reg("sync/atomic.Add"+ty, func(m *Machine, fn *Func, a []Value) (Value, bool) {
			c := m.cell(a[0])
			m.set(c, Value{n: c.n + a[1].n})
			return *c, true
		})
		reg("sync/atomic.Swap"+ty, func(m *Machine, fn *Func, a []Value) (Value, bool) {
			c := m.cell(a[0])
			o := *c
			m.set(c, a[1])
			return o, true
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(m *Machine, fn *Func, a []Value) (Value, bool) {
			c := m.cell(a[0])
			if *c == a[1] {
				m.set(c, a[2])
				return boolVal(true), true
			}
			return boolVal(false), true
		})
	}

	// math
	reg("math.Float64bits", func(m *Machine, fn *Func, a []Value) (Value, bool) { return Value{n: a[0].n}, true })
	reg("math.Float64frombits", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if a[0].o != nil {
			return floatVal(math.Float64frombits(m.concretize(a[0].term()))), true
		}
		return Value{n: a[0].n}, true
	})
	reg("math.Float32bits", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return Value{n: uint64(math.Float32bits(float32(a[0].float())))}, true
	})
	reg("math.Float32frombits", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return floatVal(float64(math.Float32frombits(uint32(a[0].n)))), true
	})
	native("math.Floor", math.Floor)
	native("math.Ceil", math.Ceil)
	native("math.Abs", math.Abs)
	native("math.Sqrt", math.Sqrt)
	native("math.Pow", math.Pow)
	native("math.Mod", math.Mod)
	native("math.Trunc", math.Trunc)
	native("math.IsNaN", math.IsNaN)
	native("math.IsInf", math.IsInf)
	native("math/bits.LeadingZeros64", bits.LeadingZeros64)
	native("math/bits.TrailingZeros64", bits.TrailingZeros64)
	native("math/bits.Len64", bits.Len64)
	native("math/bits.Len32", bits.Len32)
	native("math/bits.Len", bits.Len)

	// errors / runtime
	reg("runtime.Callers", func(m *Machine, fn *Func, a []Value) (Value, bool) { return intVal(0), true })
	reg("runtime.Caller", func(m *Machine, fn *Func, a []Value) (Value, bool) { return tuple(Value{}, Value{}, Value{}, Value{}), true })

	// process
	reg("os.Exit", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		panic(&pathEnd{kind: "exit", code: int(m.concInt(a[0], rtInt))})
	})
	fatal := func(m *Machine, fn *Func, a []Value) (Value, bool) {
		panic(&pathEnd{kind: "exit", code: 1, msg: "log.Fatal"})
	}
	reg("log.Fatal", fatal)
	reg("log.Fatalf", fatal)
	reg("log.Fatalln", fatal)
	for _, n := range []string{"log.Print", "log.Printf", "log.Println", "log.SetFlags", "log.SetPrefix", "log.SetOutput"} {
		reg(n, noop)
	}
	reg("os.NewFile", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		n := int(a[0].n)
		return Value{o: &NObj{"file", n}}, true
	})
	reg("os.Getenv", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if v, ok := m.kv["env:"+m.concStr(strOf(a[0]))]; ok {
			return v, true
		}
		return Value{}, true
	})
	reg("os.LookupEnv", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if v, ok := m.kv["env:"+m.concStr(strOf(a[0]))]; ok {
			return tuple(v, boolVal(true)), true
		}
		return tuple(Value{}, Value{}), true
	})
	reg("os.Setenv", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if m.kv == nil {
			m.kv = map[string]Value{}
		}
		m.kv["env:"+m.concStr(strOf(a[0]))] = a[1]
		return Value{}, true
	})
	reg("os.Unsetenv", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		delete(m.kv, "env:"+m.concStr(strOf(a[0])))
		return Value{}, true
	})
	reg("os.runtime_args", func(m *Machine, fn *Func, a []Value) (Value, bool) { return Value{}, true })
	reg("syscall.runtime_envs", func(m *Machine, fn *Func, a []Value) (Value, bool) { return Value{}, true })
	reg("runtime.NumCPU", func(m *Machine, fn *Func, a []Value) (Value, bool) { return intVal(1), true })
	fwrite := func(m *Machine, f Value, s *Str) {
		o, _ := f.o.(*NObj)
		if o != nil && o.kind == "file" && o.v.(int) == 1 {
			m.stdout = append(m.stdout, s)
		}
	}
	reg("(*os.File).Write", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := bytesToStr(m.sliceOf(a[1]))
		fwrite(m, a[0], s)
		return tuple(intVal(s.Len()), Value{}), true
	})
	reg("(*os.File).WriteString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		fwrite(m, a[0], strOf(a[1]))
		return tuple(intVal(strOf(a[1]).Len()), Value{}), true
	})
	reg("(*os.File).Sync", noop)
	reg("(*os.File).Close", noop)
	reg("(*os.File).Fd", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		o, _ := a[0].o.(*NObj)
		if o == nil {
			return Value{}, true
		}
		return intVal(o.v.(int)), true
	})
	rf := func(m *Machine, fn *Func, a []Value) (Value, bool) {
		name := strOf(a[0])
		for k, s := range m.files {
			if name.sym == nil && name.s == k {
				return tuple(m.strBytes(s), Value{}), true
			}
		}
		return tuple(Value{}, m.mkError("open "+name.show()+": no such file or directory")), true
	}
	reg("os.ReadFile", rf)
	reg("io/ioutil.ReadFile", rf)
	reg("reflect.DeepEqual", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		x, _ := a[0].o.(*Iface)
		y, _ := a[1].o.(*Iface)
		if x == nil || y == nil {
			return boolVal(x == nil && y == nil), true
		}
		if x.rt != y.rt {
			return boolVal(false), true
		}
		return m.boolTerm(m.deepEq(x.rt, x.v, y.v, 0)), true
	})
	reg("time.Now", unsup("time.Now"))
	regRegexp()
	regFmt()
	regSym()
	regMisc()
}

func firstScalar(a *Agg) *Value {
	for i := range a.f {
		if b, ok := a.f[i].o.(*Agg); ok {
			if len(b.f) > 0 {
				if r := firstScalar(b); r != nil {
					return r
				}
			}
			continue
		}
		return &a.f[i]
	}
	return nil
}

func (m *Machine) deepEq(r *RType, a, b Value, depth int) *Term {
	if depth > 50 {
		m.unsupported("deep DeepEqual")
	}
	switch r.kind {
	case KPtr:
		if a.o == nil || b.o == nil {
			return m.tt.Bool(a.o == nil && b.o == nil)
		}
		if a.o == b.o {
			return m.tt.T
		}
		return m.deepEq(r.elem, *m.cell(a), *m.cell(b), depth+1)
	case KSlice:
		if (a.o == nil) != (b.o == nil) {
			return m.tt.F
		}
		x, y := m.sliceOf(a), m.sliceOf(b)
		if len(x) != len(y) {
			return m.tt.F
		}
		t := m.tt.T
		for i := range x {
			t = m.tt.And(t, m.deepEq(r.elem, x[i], y[i], depth+1))
		}
		return t
	case KStruct:
		x, y := a.o.(*Agg), b.o.(*Agg)
		t := m.tt.T
		for i, f := range r.fields {
			t = m.tt.And(t, m.deepEq(f, x.f[i], y.f[i], depth+1))
		}
		return t
	case KArray:
		x, y := a.o.(*Agg), b.o.(*Agg)
		t := m.tt.T
		for i := range x.f {
			t = m.tt.And(t, m.deepEq(r.elem, x.f[i], y.f[i], depth+1))
		}
		return t
	case KIface:
		x, _ := a.o.(*Iface)
		y, _ := b.o.(*Iface)
		if x == nil || y == nil {
			return m.tt.Bool(x == nil && y == nil)
		}
		if x.rt != y.rt {
			return m.tt.F
		}
		return m.deepEq(x.rt, x.v, y.v, depth+1)
	case KMap:
		x, _ := a.o.(*Map)
		y, _ := b.o.(*Map)
		if x == nil || y == nil {
			return m.tt.Bool(x == nil && y == nil)
		}
		if x.live != y.live {
			return m.tt.F
		}
		t := m.tt.T
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			i := m.mapFind(y, e.k)
			if i < 0 {
				return m.tt.F
			}
			t = m.tt.And(t, m.deepEq(r.elem, e.v, y.ents[i].v, depth+1))
		}
		return t
	case KFunc:
		return m.tt.Bool(a.o == nil && b.o == nil)
	}
	return m.eq(r, a, b)
}

func (m *Machine) appendStr(dst Value, s *Str) Value {
	src := make([]Value, s.Len())
	for i := range src {
		src[i] = byteVal(s.at(i))
	}
	return m.appendVals(dst, src, rtUint8)
}

func (m *Machine) indexByte(s *Str, c *Term) int {
	if s.sym == nil && c.op == OConst {
		return strings.IndexByte(s.s, byte(c.k))
	}
	for i := 0; i < s.Len(); i++ {
		if m.decide(m.tt.Eq(s.at(i), c)) {
			return i
		}
	}
	return -1
}

func (m *Machine) countByte(s *Str, c *Term) int {
	n := 0
	for i := 0; i < s.Len(); i++ {
		if m.decide(m.tt.Eq(s.at(i), c)) {
			n++
		}
	}
	return n
}

func (m *Machine) compare(a, b *Str) Value {
	if a.sym == nil && b.sym == nil {
		return intVal(strings.Compare(a.s, b.s))
	}
	lt := m.ltStr(a, b, false)
	eq := m.eqStr(a, b)
	return m.termVal(m.tt.Ite(eq, m.tt.Const(64, 0), m.tt.Ite(lt, m.tt.Const(64, ^uint64(0)), m.tt.Const(64, 1))), rtInt)
}

// itoa renders an integer in decimal; forks over the number of digits.
func (m *Machine) itoa(v Value, rt *RType) *Str {
	t, ok := v.o.(*Term)
	if !ok {
		if rt.signed {
			return &Str{s: strconv.FormatInt(int64(v.n), 10)}
		}
		return &Str{s: strconv.FormatUint(v.n, 10)}
	}
	neg := false
	if rt.signed && m.decide(m.tt.Cmp(OSlt, t, m.tt.Const(t.w, 0))) {
		neg = true
		t = m.tt.Bin(OSub, m.tt.Const(t.w, 0), t)
	}
	nd := 1
	p := uint64(10)
	max := t.u
	for nd < 20 {
		if p > mask(t.w) || max < p {
			break
		}
		if m.decide(m.tt.Cmp(OUlt, t, m.tt.Const(t.w, p))) {
			break
		}
		nd++
		if nd == 20 {
			break
		}
		p *= 10
	}
	// narrow
	digits := make([]*Term, nd)
	cur := t
	for _, w := range []uint8{8, 16, 32} {
		if w < t.w && nd <= map[uint8]int{8: 2, 16: 4, 32: 9}[w] {
			cur = m.tt.Extract(t, w)
			break
		}
	}
	w := cur.w
	for i := nd - 1; i >= 0; i-- {
		d := m.tt.Bin(OUrem, cur, m.tt.Const(w, 10))
		digits[i] = m.tt.Bin(OAdd, m.tt.Extract(d, 8), m.tt.Const(8, '0'))
		cur = m.tt.Bin(OUdiv, cur, m.tt.Const(w, 10))
	}
	s := strOf(m.mkSym(digits))
	if neg {
		s = concat(&Str{s: "-"}, s)
	}
	return s
}

// mkError makes an error value (an *errors.errorString).
func (m *Machine) mkError(msg string) Value {
	rt := m.ex.prog.rtError
	if rt == nil {
		m.unsupported("errors package not loaded")
	}
	cell := m.newCell(Value{o: &Agg{[]Value{mkStr(msg)}}})
	return Value{o: &Iface{rt, Value{o: cell}}}
}

var _ = fmt.Sprint
var _ = sort.Strings
var _ = atomic.AddInt32
