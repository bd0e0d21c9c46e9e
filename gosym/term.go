package main

// Hash-consed SMT terms over bit-vectors and booleans, with constant folding
// and a concrete evaluator.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd // boolean n-ary (stored binary)
	OOr
	OEq // bv or bool
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OBvAnd
	OBvOr
	OBvXor
	OZext
	OSext
	OExtract // low bits: extract w-1..0 (k = low bit)
)

var opName = map[Op]string{OAnd: "and", OOr: "or", ONot: "not", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor"}

// Term is a node. w==0 means Bool.
type Term struct {
	op      Op
	w       uint8
	id      int32
	k       uint64 // const value / var index / extract low bit
	a, b, c *Term
	u       uint64 // upper bound of the value
	h1, h2  uint64 // structural hash
	vs      []uint64 // set of variable indices (bitset), nil until computed
	vsDone  bool
	// solver: 0 = not emitted
	emitted int32
	// eval memo
	epoch int32
	val   uint64
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

type TermTab struct {
	m     map[termKey]*Term
	next  int32
	epoch int32
	T, F  *Term
}

func NewTermTab() *TermTab {
	t := &TermTab{m: make(map[termKey]*Term, 1<<14)}
	t.T = t.mk(OConst, 0, 1, nil, nil, nil)
	t.F = t.mk(OConst, 0, 0, nil, nil, nil)
	for i := range byteConst {
		c := byteConst[i]
		t.m[termKey{OConst, 8, uint64(i), -1, -1, -1}] = c
	}
	t.next = 2 + 256
	return t
}

func init() {
	tt := &TermTab{m: map[termKey]*Term{}, next: 2}
	for i := range byteConst {
		byteConst[i] = tt.mk(OConst, 8, uint64(i), nil, nil, nil)
		byteConst[i].vsDone = true
	}
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b+0x7F4A7C15)*0xC2B2AE3D27D4EB4F
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x
}

// vars returns the set of variable indices occurring in t.
func (t *Term) vars() []uint64 {
	if t.vsDone {
		return t.vs
	}
	t.vsDone = true
	if t.op == OVar {
		t.vs = make([]uint64, t.k/64+1)
		t.vs[t.k/64] = 1 << (t.k % 64)
		return t.vs
	}
	var out []uint64
	own := false
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x == nil {
			continue
		}
		v := x.vars()
		if len(v) == 0 {
			continue
		}
		if out == nil {
			out = v
			continue
		}
		sub := len(v) <= len(out)
		if sub {
			for i := range v {
				if v[i]&^out[i] != 0 {
					sub = false
					break
				}
			}
		}
		if sub {
			continue
		}
		if !own || len(v) > len(out) {
			n := len(out)
			if len(v) > n {
				n = len(v)
			}
			no := make([]uint64, n)
			copy(no, out)
			out = no
			own = true
		}
		for i := range v {
			out[i] |= v[i]
		}
	}
	t.vs = out
	return out
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tt *TermTab) mk(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := termKey{op, w, k, tid(a), tid(b), tid(c)}
	if t, ok := tt.m[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: tt.next, k: k, a: a, b: b, c: c}
	t.u = ub1(t)
	h1 := mix(uint64(op)<<8|uint64(w), k)
	h2 := mix(h1^0x9e3779b97f4a7c15, k+1)
	for _, x := range [3]*Term{a, b, c} {
		if x != nil {
			h1 = mix(h1, x.h1)
			h2 = mix(h2+7, x.h2)
		} else {
			h1 = mix(h1, 3)
			h2 = mix(h2, 5)
		}
	}
	t.h1, t.h2 = h1, h2
	tt.next++
	tt.m[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tt *TermTab) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tt.T
		}
		return tt.F
	}
	return tt.mk(OConst, w, v&mask(w), nil, nil, nil)
}
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}
func (tt *TermTab) Var(idx int, w uint8) *Term { return tt.mk(OVar, w, uint64(idx), nil, nil, nil) }

func (tt *TermTab) Not(a *Term) *Term {
	if a.op == OConst {
		return tt.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return tt.mk(ONot, 0, 0, a, nil, nil)
}

func (tt *TermTab) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.F
	}
	return tt.mk(OAnd, 0, 0, a, b, nil)
}
func (tt *TermTab) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.T
	}
	return tt.mk(OOr, 0, 0, a, b, nil)
}

// maximum value a term can have (cheap upper bound), to fold comparisons.
func ub(t *Term) uint64 { return t.u }

func ub1(t *Term) uint64 {
	switch t.op {
	case OExtract:
		x := ub(t.a)
		if x <= mask(t.w) {
			return x
		}
	case OConst:
		return t.k
	case OZext:
		return ub(t.a)
	case OIte:
		x, y := ub(t.b), ub(t.c)
		if x > y {
			return x
		}
		return y
	case OBvAnd:
		x, y := ub(t.a), ub(t.b)
		if x < y {
			return x
		}
		return y
	case OUrem:
		if t.b.op == OConst && t.b.k > 0 {
			x := ub(t.a)
			if x < t.b.k-1 {
				return x
			}
			return t.b.k - 1
		}
	case OUdiv:
		if t.b.op == OConst && t.b.k > 0 {
			return ub(t.a) / t.b.k
		}
	case OLshr:
		if t.b.op == OConst && t.b.k < 64 {
			return ub(t.a) >> t.b.k
		}
	case OAdd:
		x, y := ub(t.a), ub(t.b)
		s := x + y
		if s >= x && s <= mask(t.w) {
			return s
		}
	case OMul:
		h, l := bits.Mul64(ub(t.a), ub(t.b))
		if h == 0 && l <= mask(t.w) {
			return l
		}
	}
	return mask(t.w)
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.op == OConst && b.op == OConst {
		return tt.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.op == OConst {
			if a.k != 0 {
				return b
			}
			return tt.Not(b)
		}
		if b.op == OConst {
			if b.k != 0 {
				return a
			}
			return tt.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && b.w > 0 {
		if b.k > ub(a) {
			return tt.F
		}
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return tt.F
			}
			return tt.Eq(a.a, tt.Const(a.a.w, b.k))
		case OSext:
			lo := b.k & mask(a.a.w)
			if uint64(sx(lo, a.a.w))&mask(a.w) != b.k {
				return tt.F
			}
			return tt.Eq(a.a, tt.Const(a.a.w, lo))
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				x, y := a.b.k == b.k, a.c.k == b.k
				switch {
				case x && y:
					return tt.T
				case x:
					return a.a
				case y:
					return tt.Not(a.a)
				default:
					return tt.F
				}
			}
			if a.b.op == OConst || a.c.op == OConst {
				return tt.IteB(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
			}
		case OAdd:
			if a.b.op == OConst {
				return tt.Eq(a.a, tt.Const(a.w, b.k-a.b.k))
			}
		case OSub:
			if a.b.op == OConst {
				return tt.Eq(a.a, tt.Const(a.w, b.k+a.b.k))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return tt.Eq(a.a, b.a)
	}
	if a.op != OConst && b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OEq, 0, 0, a, b, nil)
}

func (tt *TermTab) IteB(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.k != 0 {
			return tt.Or(c, b)
		}
		return tt.And(tt.Not(c), b)
	}
	if b.op == OConst {
		if b.k != 0 {
			return tt.Or(tt.Not(c), a)
		}
		return tt.And(c, a)
	}
	return tt.mk(OIte, 0, 0, c, a, b)
}

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if a.w == 0 {
		return tt.IteB(c, a, b)
	}
	if c.op == OConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return tt.mk(OIte, a.w, 0, c, a, b)
}

func cmpConst(op Op, x, y uint64, w uint8) bool {
	switch op {
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sx(x, w) < sx(y, w)
	case OSle:
		return sx(x, w) <= sx(y, w)
	}
	panic("cmp")
}

func (tt *TermTab) Cmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return tt.Bool(cmpConst(op, a.k, b.k, a.w))
	}
	if a == b {
		return tt.Bool(op == OUle || op == OSle)
	}
	signed := op == OSlt || op == OSle
	if signed {
		// if both are provably non-negative, go unsigned
		top := uint64(1) << (a.w - 1)
		if ub(a) < top && ub(b) < top {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
			signed = false
		}
	}
	if !signed {
		if b.op == OConst {
			u := ub(a)
			if op == OUlt && u < b.k || op == OUle && u <= b.k {
				return tt.T
			}
			if op == OUlt && b.k == 0 {
				return tt.F
			}
			if a.op == OZext {
				if b.k <= mask(a.a.w) {
					return tt.Cmp(op, a.a, tt.Const(a.a.w, b.k))
				}
				return tt.T
			}
		}
		if a.op == OConst {
			u := ub(b)
			if op == OUlt && a.k >= u || op == OUle && a.k > u {
				return tt.F
			}
			if op == OUle && a.k == 0 {
				return tt.T
			}
			if b.op == OZext {
				if a.k <= mask(b.a.w) {
					return tt.Cmp(op, tt.Const(b.a.w, a.k), b.a)
				}
				return tt.F
			}
		}
	}
	return tt.mk(op, 0, 0, a, b, nil)
}

func evalBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		if y == 0 {
			if sx(x, w) >= 0 {
				return m
			}
			return 1
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSrem:
		if y == 0 {
			return x
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	case OBvAnd:
		return x & y
	case OBvOr:
		return x | y
	case OBvXor:
		return x ^ y
	}
	panic("evalBin")
}

func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opName[op], a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return tt.Const(a.w, evalBin(op, a.k, b.k, a.w))
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return tt.Bin(OAdd, a.a, tt.Const(a.w, a.b.k+b.k))
			}
			if a.op == OSub && a.b.op == OConst {
				return tt.Bin(OAdd, a.a, tt.Const(a.w, b.k-a.b.k))
			}
		}
	case OSub:
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			return tt.Bin(OAdd, a, tt.Const(a.w, -b.k))
		}
		if a == b {
			return tt.Const(a.w, 0)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OUdiv, OUrem, OSdiv, OSrem:
		if op == OSdiv || op == OSrem {
			top := uint64(1) << (a.w - 1)
			if ub(a) < top && ub(b) < top {
				if op == OSdiv {
					return tt.Bin(OUdiv, a, b)
				}
				return tt.Bin(OUrem, a, b)
			}
		}
		if b.op == OConst && b.k == 1 {
			if op == OUdiv || op == OSdiv {
				return a
			}
			return tt.Const(a.w, 0)
		}
		if b.op == OConst && (op == OUdiv || op == OUrem) && ub(a) < b.k {
			if op == OUdiv {
				return tt.Const(a.w, 0)
			}
			return a
		}
		// narrow the division when the dividend is small
		if (op == OUdiv || op == OUrem) && b.op == OConst && b.k > 0 {
			u := ub(a)
			nw := uint8(0)
			for _, c := range []uint8{8, 16, 32} {
				if c < a.w && u <= mask(c) && b.k <= mask(c) {
					nw = c
					break
				}
			}
			if nw != 0 {
				return tt.Zext(tt.mk(op, nw, 0, tt.Extract(a, nw), tt.Const(nw, b.k), nil), a.w)
			}
		}
	case OBvAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return b
		}
		if b.op == OConst && b.k == mask(a.w) {
			return a
		}
		if a == b {
			return a
		}
	case OBvOr, OBvXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst && b.k == 0 {
			return a
		}
	}
	// push through ite of constants when one side const
	return tt.mk(op, a.w, 0, a, b, nil)
}

func (tt *TermTab) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return tt.Const(w, a.k)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	return tt.mk(OZext, w, 0, a, nil, nil)
}
func (tt *TermTab) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return tt.Const(w, uint64(sx(a.k, a.w)))
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	if ub(a) < uint64(1)<<(a.w-1) {
		return tt.Zext(a, w)
	}
	return tt.mk(OSext, w, 0, a, nil, nil)
}

// Extract the low w bits.
func (tt *TermTab) Extract(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return tt.Const(w, a.k)
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tt.Extract(a.a, w)
		}
		if a.op == OZext {
			return tt.Zext(a.a, w)
		}
		return tt.Sext(a.a, w)
	case OAdd, OSub, OMul, OBvAnd, OBvOr, OBvXor:
		return tt.Bin(a.op, tt.Extract(a.a, w), tt.Extract(a.b, w))
	case OIte:
		return tt.Ite(a.a, tt.Extract(a.b, w), tt.Extract(a.c, w))
	}
	return tt.mk(OExtract, w, 0, a, nil, nil)
}

// Eval under a model (vals indexed by variable index).
func (tt *TermTab) Eval(t *Term, model []uint64) uint64 {
	tt.epoch++
	return tt.ev(t, model)
}

func (tt *TermTab) ev(t *Term, model []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if int(t.k) < len(model) {
			return model[t.k] & mask1(t.w)
		}
		return 0
	}
	if t.epoch == tt.epoch {
		return t.val
	}
	var r uint64
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		r = tt.ev(t.a, model) ^ 1
	case OAnd:
		if tt.ev(t.a, model) == 0 {
			r = 0
		} else {
			r = tt.ev(t.b, model)
		}
	case OOr:
		if tt.ev(t.a, model) != 0 {
			r = 1
		} else {
			r = tt.ev(t.b, model)
		}
	case OEq:
		r = b(tt.ev(t.a, model) == tt.ev(t.b, model))
	case OUlt, OUle, OSlt, OSle:
		r = b(cmpConst(t.op, tt.ev(t.a, model), tt.ev(t.b, model), t.a.w))
	case OIte:
		if tt.ev(t.a, model) != 0 {
			r = tt.ev(t.b, model)
		} else {
			r = tt.ev(t.c, model)
		}
	case OZext:
		r = tt.ev(t.a, model)
	case OSext:
		r = uint64(sx(tt.ev(t.a, model), t.a.w)) & mask(t.w)
	case OExtract:
		r = tt.ev(t.a, model) & mask(t.w)
	default:
		r = evalBin(t.op, tt.ev(t.a, model), tt.ev(t.b, model), t.w)
	}
	t.epoch = tt.epoch
	t.val = r
	return r
}

func mask1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(w uint8, k uint64) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

// ref returns the SMT name of a term; leaves are printed inline.
func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constStr(t.w, t.k)
	case OVar:
		return fmt.Sprintf("v%d_%d", t.k, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

// emit writes definitions for t and its sub-terms to sb, once per solver session.
func (t *Term) emit(sb *strings.Builder, session int32) {
	if t.op == OConst || t.emitted == session {
		return
	}
	t.emitted = session
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.ref(), sortOf(t.w))
		return
	}
	if t.a != nil {
		t.a.emit(sb, session)
	}
	if t.b != nil {
		t.b.emit(sb, session)
	}
	if t.c != nil {
		t.c.emit(sb, session)
	}
	var body string
	switch t.op {
	case ONot:
		body = "(not " + t.a.ref() + ")"
	case OIte:
		body = "(ite " + t.a.ref() + " " + t.b.ref() + " " + t.c.ref() + ")"
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.a.ref())
	default:
		body = "(" + opName[t.op] + " " + t.a.ref() + " " + t.b.ref() + ")"
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), body)
}

func (t *Term) collectVars(seen map[*Term]bool, out *[]*Term) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		*out = append(*out, t)
		return
	}
	t.a.collectVars(seen, out)
	t.b.collectVars(seen, out)
	t.c.collectVars(seen, out)
}
