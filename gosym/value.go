package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a machine word or a reference.
//
//	bool/int: o==nil, n canonical (sign- or zero-extended) ; symbolic: o=*Term
//	float:    n = Float64bits
//	string:   o=*Str (nil = "")
//	pointer:  o=*Value (cell) or *NObj (engine-native object)
//	slice:    o=*Slice (nil = nil slice)
//	map:      o=*Map ; chan unsupported
//	iface:    o=*Iface
//	func:     o=*Closure
//	struct/array: o=*Agg
//	tuple:    o=*Tuple
type Value struct {
	n uint64
	o any
}

type Str struct {
	s   string
	sym []*Term
}

type Agg struct{ f []Value }
type Tuple struct{ f []Value }
type Slice struct{ a []Value }
type Iface struct {
	rt *RType
	v  Value
}
type Closure struct {
	fn   *Func
	free []Value
	nat  func(m *Machine, args []Value) Value // engine-native function value
}

// NObj is an engine-native object behind a pointer (regexp, builders).
type NObj struct {
	kind string
	v    any
}

type mapEnt struct {
	k, v Value
	dead bool
}
type Map struct {
	ents []mapEnt
	idx  map[any]int // concrete keys -> index in ents
	nsym int         // number of live symbolic keys
	live int
	old  bool
	rt   *RType
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KMap
	KIface
	KFunc
	KStruct
	KArray
	KChan
	KTuple
	KUnsafe
)

type RType struct {
	t      types.Type
	id     int
	kind   Kind
	bits   uint8
	signed bool
	elem   *RType
	key    *RType
	fields []*RType
	fnames []string
	n      int
	mu     sync.Mutex
	meth   map[string]*ssa.Function
	named  bool
}

var (
	rtMu  sync.RWMutex
	rtMap typeutil.Map
	rtAll []*RType
)

func rtypeOf(t types.Type) *RType {
	rtMu.RLock()
	if r := rtMap.At(t); r != nil {
		rtMu.RUnlock()
		return r.(*RType)
	}
	rtMu.RUnlock()
	rtMu.Lock()
	defer rtMu.Unlock()
	return rtypeLocked(t)
}

func rtypeLocked(t types.Type) *RType {
	if r := rtMap.At(t); r != nil {
		return r.(*RType)
	}
	r := &RType{t: t, id: len(rtAll)}
	rtAll = append(rtAll, r)
	rtMap.Set(t, r)
	if _, ok := types.Unalias(t).(*types.Named); ok {
		r.named = true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			r.kind = KBool
		case u.Info()&types.IsInteger != 0:
			r.kind = KInt
			r.bits, r.signed = intInfo(u)
		case u.Info()&types.IsFloat != 0:
			r.kind = KFloat
			r.bits = 64
			if u.Kind() == types.Float32 {
				r.bits = 32
			}
		case u.Info()&types.IsComplex != 0:
			r.kind = KComplex
		case u.Info()&types.IsString != 0:
			r.kind = KString
		case u.Kind() == types.UnsafePointer:
			r.kind = KUnsafe
		case u.Kind() == types.UntypedNil:
			r.kind = KPtr
		default:
			r.kind = KTuple
		}
	case *types.Pointer:
		r.kind = KPtr
		r.elem = rtypeLocked(u.Elem())
	case *types.Slice:
		r.kind = KSlice
		r.elem = rtypeLocked(u.Elem())
	case *types.Map:
		r.kind = KMap
		r.key = rtypeLocked(u.Key())
		r.elem = rtypeLocked(u.Elem())
	case *types.Interface:
		r.kind = KIface
	case *types.Signature:
		r.kind = KFunc
	case *types.Struct:
		r.kind = KStruct
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, rtypeLocked(u.Field(i).Type()))
			r.fnames = append(r.fnames, u.Field(i).Name())
		}
	case *types.Array:
		r.kind = KArray
		r.elem = rtypeLocked(u.Elem())
		r.n = int(u.Len())
	case *types.Chan:
		r.kind = KChan
		r.elem = rtypeLocked(u.Elem())
	case *types.Tuple:
		r.kind = KTuple
	default:
		r.kind = KTuple
	}
	return r
}

func intInfo(u *types.Basic) (uint8, bool) {
	switch u.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func (r *RType) isAgg() bool { return r.kind == KStruct || r.kind == KArray }
func (r *RType) String() string {
	return types.TypeString(r.t, func(p *types.Package) string { return p.Name() })
}

func canon(n uint64, bits uint8, signed bool) uint64 {
	if bits == 64 {
		return n
	}
	if signed {
		sh := 64 - uint(bits)
		return uint64(int64(n<<sh) >> sh)
	}
	return n & (1<<bits - 1)
}

// ---- memory ----

type chunk struct{ lo, hi uintptr }

type jent struct {
	p *Value
	v Value
}
type jmap struct {
	m   *Map
	old Map
}

const arenaChunk = 1 << 16

type Arena struct {
	cur    []Value
	chunks []chunk
	keep   [][]Value
}

func (a *Arena) alloc(n int) []Value {
	if n > arenaChunk/4 {
		s := make([]Value, n)
		a.add(s)
		return s
	}
	if len(a.cur) < n {
		a.cur = make([]Value, arenaChunk)
		a.add(a.cur)
	}
	s := a.cur[:n:n]
	a.cur = a.cur[n:]
	return s
}
func (a *Arena) add(s []Value) {
	lo := uintptr(unsafe.Pointer(&s[0]))
	a.chunks = append(a.chunks, chunk{lo, lo + uintptr(len(s))*unsafe.Sizeof(Value{})})
	a.keep = append(a.keep, s)
}

func (m *Machine) newCells(n int) []Value {
	if m.initing {
		return m.arena.alloc(n)
	}
	if n > 256 {
		return make([]Value, n)
	}
	if len(m.bump) < n {
		m.bump = make([]Value, 512)
	}
	s := m.bump[:n:n]
	m.bump = m.bump[n:]
	return s
}

func (m *Machine) isOld(p *Value) bool {
	u := uintptr(unsafe.Pointer(p))
	if u < m.oldLo || u >= m.oldHi {
		return false
	}
	for i := range m.arena.chunks {
		c := &m.arena.chunks[i]
		if u >= c.lo && u < c.hi {
			return true
		}
	}
	return false
}

// set stores a non-aggregate value.
func (m *Machine) set(p *Value, v Value) {
	if !m.initing && m.isOld(p) {
		m.journal = append(m.journal, jent{p, *p})
	}
	*p = v
}

// store implements *p = v with value semantics.
func (m *Machine) store(p *Value, v Value) {
	if a, ok := v.o.(*Agg); ok {
		d, ok := p.o.(*Agg)
		if !ok {
			m.set(p, m.copyVal(v))
			return
		}
		if d == a {
			return
		}
		for i := range a.f {
			m.store(&d.f[i], a.f[i])
		}
		return
	}
	m.set(p, v)
}

// copyVal makes an independent copy of aggregates.
func (m *Machine) copyVal(v Value) Value {
	a, ok := v.o.(*Agg)
	if !ok {
		return v
	}
	f := m.newCells(len(a.f))
	for i := range a.f {
		if _, ok := a.f[i].o.(*Agg); ok {
			f[i] = m.copyVal(a.f[i])
		} else {
			f[i] = a.f[i]
		}
	}
	return Value{o: &Agg{f}}
}

func (m *Machine) zero(r *RType) Value {
	switch r.kind {
	case KStruct:
		f := m.newCells(len(r.fields))
		for i, ft := range r.fields {
			if ft.isAgg() {
				f[i] = m.zero(ft)
			} else {
				f[i] = Value{}
			}
		}
		return Value{o: &Agg{f}}
	case KArray:
		f := m.newCells(r.n)
		for i := range f {
			if r.elem.isAgg() {
				f[i] = m.zero(r.elem)
			} else {
				f[i] = Value{}
			}
		}
		return Value{o: &Agg{f}}
	}
	return Value{}
}

func (m *Machine) newCell(v Value) *Value {
	c := m.newCells(1)
	c[0] = v
	return &c[0]
}

// ---- strings ----

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{o: &Str{s: s}}
}

func (m *Machine) mkSym(b []*Term) Value {
	if len(b) == 0 {
		return Value{}
	}
	for _, t := range b {
		if t.op != OConst {
			return Value{o: &Str{sym: b}}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.k)
	}
	return mkStr(string(bs))
}

func strOf(v Value) *Str {
	if v.o == nil {
		return emptyStr
	}
	switch o := v.o.(type) {
	case *Str:
		return o
	case *Slice: // reinterpreted []byte
		return sliceToStr(o)
	}
	panic(fmt.Sprintf("strOf: %T", v.o))
}

func sliceToStr(s *Slice) *Str {
	return bytesToStr(s.a)
}

func bytesToStr(a []Value) *Str {
	if len(a) == 0 {
		return emptyStr
	}
	for i := range a {
		if a[i].o != nil {
			sym := make([]*Term, len(a))
			for j := range a {
				if t, ok := a[j].o.(*Term); ok {
					sym[j] = t
				} else {
					sym[j] = byteConst[byte(a[j].n)]
				}
			}
			return &Str{sym: sym}
		}
	}
	bs := make([]byte, len(a))
	for i := range a {
		bs[i] = byte(a[i].n)
	}
	return &Str{s: string(bs)}
}

// byteConst terms are shared by all tables (they are constants with fixed ids < 256+2).
var byteConst [256]*Term

var emptyStr = &Str{}

func (s *Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}
func (s *Str) at(i int) *Term {
	if s.sym != nil {
		return s.sym[i]
	}
	return byteConst[s.s[i]]
}
func (s *Str) conc() (string, bool) { return s.s, s.sym == nil }
func (s *Str) terms() []*Term {
	if s.sym != nil {
		return s.sym
	}
	t := make([]*Term, len(s.s))
	for i := range t {
		t[i] = byteConst[s.s[i]]
	}
	return t
}
func (s *Str) slice(i, j int) *Str {
	if i == 0 && j == s.Len() {
		return s
	}
	if i == j {
		return emptyStr
	}
	if s.sym == nil {
		return &Str{s: s.s[i:j]}
	}
	sub := s.sym[i:j]
	for _, t := range sub {
		if t.op != OConst {
			return &Str{sym: sub}
		}
	}
	bs := make([]byte, len(sub))
	for i, t := range sub {
		bs[i] = byte(t.k)
	}
	return &Str{s: string(bs)}
}
func strVal(s *Str) Value {
	if s.Len() == 0 {
		return Value{}
	}
	return Value{o: s}
}
func concat(a, b *Str) *Str {
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	if a.sym == nil && b.sym == nil {
		return &Str{s: a.s + b.s}
	}
	t := make([]*Term, 0, a.Len()+b.Len())
	t = append(t, a.terms()...)
	t = append(t, b.terms()...)
	return &Str{sym: t}
}

// show renders a string for messages ('?' for symbolic bytes).
func (s *Str) show() string {
	if s.sym == nil {
		return s.s
	}
	var sb strings.Builder
	for _, t := range s.sym {
		if t.op == OConst {
			sb.WriteByte(byte(t.k))
		} else {
			fmt.Fprintf(&sb, "‹%s›", t.ref())
		}
	}
	return sb.String()
}

func byteVal(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.k}
	}
	return Value{o: t}
}

func (m *Machine) strBytes(s *Str) Value {
	n := s.Len()
	cells := m.newCells(n)
	if s.sym == nil {
		for i := 0; i < n; i++ {
			cells[i] = Value{n: uint64(s.s[i])}
		}
	} else {
		for i, t := range s.sym {
			cells[i] = byteVal(t)
		}
	}
	return Value{o: &Slice{cells}}
}

func boolVal(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func intVal(i int) Value        { return Value{n: uint64(i)} }
func floatVal(f float64) Value  { return Value{n: math.Float64bits(f)} }
func (v Value) float() float64  { return math.Float64frombits(v.n) }
func (v Value) term() *Term     { t, _ := v.o.(*Term); return t }
func (v Value) int() int        { return int(int64(v.n)) }

func (m *Machine) termVal(t *Term, r *RType) Value {
	if t.op == OConst {
		if t.w == 0 {
			return Value{n: t.k}
		}
		return Value{n: canon(t.k, r.bits, r.signed)}
	}
	return Value{o: t}
}
func (m *Machine) boolTerm(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.k}
	}
	return Value{o: t}
}

// toTerm gives the term of an integer or bool value.
func (m *Machine) toTerm(v Value, w uint8) *Term {
	if t, ok := v.o.(*Term); ok {
		return t
	}
	return m.tt.Const(w, v.n)
}

// ---- equality ----

func (m *Machine) eqStr(a, b *Str) *Term {
	if a.Len() != b.Len() {
		return m.tt.F
	}
	if a.sym == nil && b.sym == nil {
		return m.tt.Bool(a.s == b.s)
	}
	// cheap refutation first
	n := a.Len()
	for i := 0; i < n; i++ {
		x, y := a.at(i), b.at(i)
		if x != y && x.op == OConst && y.op == OConst && x.k != y.k {
			return m.tt.F
		}
	}
	r := m.tt.T
	for i := n - 1; i >= 0; i-- {
		r = m.tt.And(m.tt.Eq(a.at(i), b.at(i)), r)
		if r == m.tt.F {
			return r
		}
	}
	return r
}

func (m *Machine) eq(r *RType, a, b Value) *Term {
	switch r.kind {
	case KBool:
		return m.tt.Eq(m.toTerm(a, 0), m.toTerm(b, 0))
	case KInt:
		if a.o == nil && b.o == nil {
			return m.tt.Bool(a.n == b.n)
		}
		return m.tt.Eq(m.toTerm(a, r.bits), m.toTerm(b, r.bits))
	case KFloat:
		return m.tt.Bool(a.float() == b.float())
	case KString:
		return m.eqStr(strOf(a), strOf(b))
	case KStruct:
		x, y := a.o.(*Agg), b.o.(*Agg)
		t := m.tt.T
		for i, f := range r.fields {
			if r.fnames[i] == "_" {
				continue
			}
			t = m.tt.And(t, m.eq(f, x.f[i], y.f[i]))
			if t == m.tt.F {
				return t
			}
		}
		return t
	case KArray:
		x, y := a.o.(*Agg), b.o.(*Agg)
		t := m.tt.T
		for i := range x.f {
			t = m.tt.And(t, m.eq(r.elem, x.f[i], y.f[i]))
			if t == m.tt.F {
				return t
			}
		}
		return t
	case KIface:
		x, _ := a.o.(*Iface)
		y, _ := b.o.(*Iface)
		if x == nil || y == nil {
			return m.tt.Bool(x == nil && y == nil)
		}
		if x.rt != y.rt {
			return m.tt.F
		}
		switch x.rt.kind {
		case KSlice, KMap, KFunc:
			m.goPanicStr("runtime error: comparing uncomparable type " + x.rt.String())
		}
		return m.eq(x.rt, x.v, y.v)
	case KSlice, KFunc, KMap:
		if a.o == nil || b.o == nil {
			return m.tt.Bool(a.o == nil && b.o == nil)
		}
		return m.tt.Bool(a.o == b.o)
	default:
		return m.tt.Bool(a.o == b.o && (a.o != nil || a.n == b.n))
	}
}
