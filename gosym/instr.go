package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) ops(vs []ssa.Value) []opnd {
	out := make([]opnd, len(vs))
	for i, v := range vs {
		out[i] = c.op(v)
	}
	return out
}

func (c *compiler) instr(in ssa.Instruction) instr {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := c.reg(x)
		rt := rtypeOf(x.Type().(*types.Pointer).Elem())
		return func(fr *frame) {
			fr.regs[d] = Value{o: fr.m.newCell(fr.m.zero(rt))}
		}
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		return c.callInstr(x, &x.Call, c.reg(x))
	case *ssa.ChangeInterface:
		d, o := c.reg(x), c.op(x.X)
		return func(fr *frame) { fr.regs[d] = o.get(fr) }
	case *ssa.ChangeType:
		d, o := c.reg(x), c.op(x.X)
		return func(fr *frame) { fr.regs[d] = o.get(fr) }
	case *ssa.Convert:
		return c.convert(c.reg(x), c.op(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return c.convert(c.reg(x), c.op(x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		return func(fr *frame) { fr.m.unsupported("SliceToArrayPointer") }
	case *ssa.MakeInterface:
		d, o := c.reg(x), c.op(x.X)
		rt := rtypeOf(x.X.Type())
		agg := rt.isAgg()
		return func(fr *frame) {
			v := o.get(fr)
			if agg {
				v = fr.m.copyVal(v)
			}
			fr.regs[d] = Value{o: &Iface{rt, v}}
		}
	case *ssa.MakeClosure:
		d := c.reg(x)
		f := c.p.fn(x.Fn.(*ssa.Function))
		bs := c.ops(x.Bindings)
		return func(fr *frame) {
			free := make([]Value, len(bs))
			for i := range bs {
				free[i] = bs[i].get(fr)
			}
			fr.regs[d] = Value{o: &Closure{fn: f, free: free}}
		}
	case *ssa.MakeMap:
		d := c.reg(x)
		rt := rtypeOf(x.Type())
		return func(fr *frame) { fr.regs[d] = Value{o: fr.m.newMap(rt)} }
	case *ssa.MakeSlice:
		d, l, cp := c.reg(x), c.op(x.Len), c.op(x.Cap)
		rt := rtypeOf(x.Type())
		lr, cr := rtypeOf(x.Len.Type()), rtypeOf(x.Cap.Type())
		return func(fr *frame) {
			n := fr.m.concInt(l.get(fr), lr)
			k := fr.m.concInt(cp.get(fr), cr)
			if n < 0 || n > 1<<26 {
				fr.m.goPanicStr("runtime error: makeslice: len out of range")
			}
			if k < n || k > 1<<26 {
				fr.m.goPanicStr("runtime error: makeslice: cap out of range")
			}
			fr.regs[d] = fr.m.makeSlice(rt.elem, int(n), int(k))
		}
	case *ssa.MakeChan:
		return func(fr *frame) { fr.m.unsupported("channels") }
	case *ssa.Field:
		d, o, i := c.reg(x), c.op(x.X), x.Field
		return func(fr *frame) { fr.regs[d] = o.get(fr).o.(*Agg).f[i] }
	case *ssa.FieldAddr:
		d, o, i := c.reg(x), c.op(x.X), x.Field
		return func(fr *frame) {
			v := o.get(fr)
			p, ok := v.o.(*Value)
			if !ok {
				p = fr.m.cell(v)
			}
			a, ok := p.o.(*Agg)
			if !ok {
				fr.m.unsupported("field address in reinterpreted memory (%T) at %s", p.o, fr.fn.name)
			}
			fr.regs[d] = Value{o: &a.f[i]}
		}
	case *ssa.Index:
		return c.index(x)
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.MapUpdate:
		mo, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *frame) {
			mv := mo.get(fr)
			if mv.o == nil {
				fr.m.goPanicStr("assignment to entry in nil map")
			}
			fr.m.mapSet(mv.o.(*Map), k.get(fr), fr.m.copyVal(v.get(fr)))
		}
	case *ssa.Range:
		d, o := c.reg(x), c.op(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return func(fr *frame) {
				mv, _ := o.get(fr).o.(*Map)
				fr.regs[d] = Value{o: fr.m.newMapIter(mv)}
			}
		}
		return func(fr *frame) { fr.regs[d] = Value{o: &strIter{s: strOf(o.get(fr))}} }
	case *ssa.Next:
		d, o := c.reg(x), c.op(x.Iter)
		if x.IsString {
			return func(fr *frame) {
				it := o.get(fr).o.(*strIter)
				if it.i >= it.s.Len() {
					fr.regs[d] = Value{o: &Tuple{[]Value{{}, {}, {}}}}
					return
				}
				r, n := fr.m.decodeRune(it.s, it.i)
				k := it.i
				it.i += n
				fr.regs[d] = Value{o: &Tuple{[]Value{{n: 1}, {n: uint64(k)}, r}}}
			}
		}
		return func(fr *frame) {
			it := o.get(fr).o.(*mapIter)
			k, v, ok := it.next(fr.m)
			if !ok {
				fr.regs[d] = Value{o: &Tuple{[]Value{{}, {}, {}}}}
				return
			}
			fr.regs[d] = Value{o: &Tuple{[]Value{{n: 1}, k, v}}}
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(fr *frame) {
			p := a.get(fr)
			cell, ok := p.o.(*Value)
			if !ok {
				cell = fr.m.cell(p)
			}
			fr.m.store(cell, v.get(fr))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Extract:
		d, o, i := c.reg(x), c.op(x.Tuple), x.Index
		return func(fr *frame) {
			v := o.get(fr)
			t, ok := v.o.(*Tuple)
			if !ok {
				fr.m.unsupported("extract from %T in %s", v.o, fr.fn.name)
			}
			fr.regs[d] = t.f[i]
		}
	case *ssa.Defer:
		return c.deferInstr(x)
	case *ssa.RunDefers:
		return func(fr *frame) { fr.m.runDefers(fr) }
	case *ssa.Go:
		return func(fr *frame) { fr.m.unsupported("go statement in %s", fr.fn.name) }
	case *ssa.Send, *ssa.Select:
		return func(fr *frame) { fr.m.unsupported("channel operation in %s", fr.fn.name) }
	}
	panic(fmt.Sprintf("instr %T", in))
}

type strIter struct {
	s *Str
	i int
}

func (m *Machine) makeSlice(elem *RType, n, k int) Value {
	cells := m.newCells(k)
	if elem.isAgg() {
		for i := 0; i < n; i++ {
			cells[i] = m.zero(elem)
		}
	} else {
		for i := range cells {
			cells[i] = Value{}
		}
	}
	return Value{o: &Slice{cells[:n:k]}}
}

// ---- unary / binary ----

func (c *compiler) unop(x *ssa.UnOp) instr {
	d, o := c.reg(x), c.op(x.X)
	rt := rtypeOf(x.Type())
	switch x.Op {
	case token.MUL:
		isStr := rt.kind == KString
		return func(fr *frame) {
			v := o.get(fr)
			p, ok := v.o.(*Value)
			if !ok {
				p = fr.m.cell(v)
			}
			w := *p
			switch w.o.(type) {
			case *Agg:
				w = fr.m.copyVal(w)
			case *Slice:
				if isStr {
					w = strVal(sliceToStr(w.o.(*Slice)))
				}
			}
			fr.regs[d] = w
		}
	case token.NOT:
		return func(fr *frame) {
			v := o.get(fr)
			if t, ok := v.o.(*Term); ok {
				fr.regs[d] = fr.m.boolTerm(fr.m.tt.Not(t))
				return
			}
			fr.regs[d] = Value{n: v.n ^ 1}
		}
	case token.SUB:
		if rt.kind == KFloat {
			return func(fr *frame) { fr.regs[d] = floatVal(-o.get(fr).float()) }
		}
		return func(fr *frame) {
			v := o.get(fr)
			if t, ok := v.o.(*Term); ok {
				fr.regs[d] = fr.m.termVal(fr.m.tt.Bin(OSub, fr.m.tt.Const(rt.bits, 0), t), rt)
				return
			}
			fr.regs[d] = Value{n: canon(-v.n, rt.bits, rt.signed)}
		}
	case token.XOR:
		return func(fr *frame) {
			v := o.get(fr)
			if t, ok := v.o.(*Term); ok {
				fr.regs[d] = fr.m.termVal(fr.m.tt.Bin(OBvXor, t, fr.m.tt.Const(rt.bits, ^uint64(0))), rt)
				return
			}
			fr.regs[d] = Value{n: canon(^v.n, rt.bits, rt.signed)}
		}
	}
	return func(fr *frame) { fr.m.unsupported("unop %s in %s", x.Op, fr.fn.name) }
}

func (c *compiler) binop(x *ssa.BinOp) instr {
	d, a, b := c.reg(x), c.op(x.X), c.op(x.Y)
	rt := rtypeOf(x.X.Type())
	op := x.Op
	switch rt.kind {
	case KInt:
		return c.intBinop(x, d, a, b, rt)
	case KString:
		switch op {
		case token.ADD:
			return func(fr *frame) { fr.regs[d] = strVal(concat(strOf(a.get(fr)), strOf(b.get(fr)))) }
		case token.EQL:
			return func(fr *frame) {
				x, y := a.get(fr), b.get(fr)
				fr.regs[d] = fr.m.boolTerm(fr.m.eqStr(strOf(x), strOf(y)))
			}
		case token.NEQ:
			return func(fr *frame) {
				x, y := a.get(fr), b.get(fr)
				fr.regs[d] = fr.m.boolTerm(fr.m.tt.Not(fr.m.eqStr(strOf(x), strOf(y))))
			}
		case token.LSS:
			return func(fr *frame) { fr.regs[d] = fr.m.boolTerm(fr.m.ltStr(strOf(a.get(fr)), strOf(b.get(fr)), false)) }
		case token.GTR:
			return func(fr *frame) { fr.regs[d] = fr.m.boolTerm(fr.m.ltStr(strOf(b.get(fr)), strOf(a.get(fr)), false)) }
		case token.LEQ:
			return func(fr *frame) { fr.regs[d] = fr.m.boolTerm(fr.m.ltStr(strOf(a.get(fr)), strOf(b.get(fr)), true)) }
		case token.GEQ:
			return func(fr *frame) { fr.regs[d] = fr.m.boolTerm(fr.m.ltStr(strOf(b.get(fr)), strOf(a.get(fr)), true)) }
		}
	case KFloat:
		f32 := rt.bits == 32
		return func(fr *frame) {
			x, y := a.get(fr).float(), b.get(fr).float()
			var r float64
			switch op {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			case token.EQL:
				fr.regs[d] = boolVal(x == y)
				return
			case token.NEQ:
				fr.regs[d] = boolVal(x != y)
				return
			case token.LSS:
				fr.regs[d] = boolVal(x < y)
				return
			case token.LEQ:
				fr.regs[d] = boolVal(x <= y)
				return
			case token.GTR:
				fr.regs[d] = boolVal(x > y)
				return
			case token.GEQ:
				fr.regs[d] = boolVal(x >= y)
				return
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[d] = floatVal(r)
		}
	case KComplex:
		return func(fr *frame) { fr.m.unsupported("complex arithmetic") }
	}
	// mixed interface/concrete comparison
	xt, yt := x.X.Type(), x.Y.Type()
	cr := rt
	var wrapX, wrapY *RType
	if types.IsInterface(xt) != types.IsInterface(yt) {
		if types.IsInterface(xt) {
			wrapY = rtypeOf(yt)
			if k, ok := x.Y.(*ssa.Const); ok && k.Value == nil {
				wrapY = nil
			}
		} else {
			wrapX = rtypeOf(xt)
			cr = rtypeOf(yt)
			if k, ok := x.X.(*ssa.Const); ok && k.Value == nil {
				wrapX = nil
			}
		}
	}
	if op == token.EQL || op == token.NEQ {
		neg := op == token.NEQ
		return func(fr *frame) {
			p, q := a.get(fr), b.get(fr)
			if wrapX != nil {
				p = Value{o: &Iface{wrapX, p}}
			}
			if wrapY != nil {
				q = Value{o: &Iface{wrapY, q}}
			}
			t := fr.m.eq(cr, p, q)
			if neg {
				t = fr.m.tt.Not(t)
			}
			fr.regs[d] = fr.m.boolTerm(t)
		}
	}
	return func(fr *frame) { fr.m.unsupported("binop %s on %s", op, rt) }
}

func (c *compiler) intBinop(x *ssa.BinOp, d int32, a, b opnd, rt *RType) instr {
	bits, signed := rt.bits, rt.signed
	sym := func(f func(m *Machine, p, q *Term) *Term, isBool bool) func(fr *frame, p, q Value) {
		return func(fr *frame, p, q Value) {
			m := fr.m
			t := f(m, m.toTerm(p, bits), m.toTerm(q, bits))
			if isBool {
				fr.regs[d] = m.boolTerm(t)
			} else {
				fr.regs[d] = m.termVal(t, rt)
			}
		}
	}
	cmp := func(op Op, sop Op, swap bool, neg bool) func(fr *frame, p, q Value) {
		if signed {
			op = sop
		}
		return sym(func(m *Machine, p, q *Term) *Term {
			if swap {
				p, q = q, p
			}
			t := m.tt.Cmp(op, p, q)
			if neg {
				t = m.tt.Not(t)
			}
			return t
		}, true)
	}
	arith := func(op Op) func(fr *frame, p, q Value) {
		return sym(func(m *Machine, p, q *Term) *Term { return m.tt.Bin(op, p, q) }, false)
	}
	switch x.Op {
	case token.EQL:
		s := sym(func(m *Machine, p, q *Term) *Term { return m.tt.Eq(p, q) }, true)
		return func(fr *frame) {
			p, q := a.get(fr), b.get(fr)
			if p.o == nil && q.o == nil {
				fr.regs[d] = boolVal(p.n == q.n)
				return
			}
			s(fr, p, q)
		}
	case token.NEQ:
		s := sym(func(m *Machine, p, q *Term) *Term { return m.tt.Not(m.tt.Eq(p, q)) }, true)
		return func(fr *frame) {
			p, q := a.get(fr), b.get(fr)
			if p.o == nil && q.o == nil {
				fr.regs[d] = boolVal(p.n != q.n)
				return
			}
			s(fr, p, q)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		var s func(fr *frame, p, q Value)
		var f func(p, q uint64) bool
		switch x.Op {
		case token.LSS:
			s = cmp(OUlt, OSlt, false, false)
			f = func(p, q uint64) bool { return p < q }
			if signed {
				f = func(p, q uint64) bool { return int64(p) < int64(q) }
			}
		case token.LEQ:
			s = cmp(OUle, OSle, false, false)
			f = func(p, q uint64) bool { return p <= q }
			if signed {
				f = func(p, q uint64) bool { return int64(p) <= int64(q) }
			}
		case token.GTR:
			s = cmp(OUlt, OSlt, true, false)
			f = func(p, q uint64) bool { return p > q }
			if signed {
				f = func(p, q uint64) bool { return int64(p) > int64(q) }
			}
		case token.GEQ:
			s = cmp(OUle, OSle, true, false)
			f = func(p, q uint64) bool { return p >= q }
			if signed {
				f = func(p, q uint64) bool { return int64(p) >= int64(q) }
			}
		}
		return func(fr *frame) {
			p, q := a.get(fr), b.get(fr)
			if p.o == nil && q.o == nil {
				fr.regs[d] = boolVal(f(p.n, q.n))
				return
			}
			s(fr, p, q)
		}
	case token.ADD:
		s := arith(OAdd)
		return func(fr *frame) {
			p, q := a.get(fr), b.get(fr)
			if p.o == nil && q.o == nil {
				fr.regs[d] = Value{n: canon(p.n+q.n, bits, signed)}
				return
			}
			s(fr, p, q)
		}
	case token.SUB:
		s := arith(OSub)
		return func(fr *frame) {
			p, q := a.get(fr), b.get(fr)
			if p.o == nil && q.o == nil {
				fr.regs[d] = Value{n: canon(p.n-q.n, bits, signed)}
				return
			}
			s(fr, p, q)
		}
	}
	var s func(fr *frame, p, q Value)
	var f func(p, q uint64) uint64
	div := false
	switch x.Op {
	case token.MUL:
		s = arith(OMul)
		f = func(p, q uint64) uint64 { return p * q }
	case token.QUO:
		div = true
		if signed {
			s = arith(OSdiv)
			f = func(p, q uint64) uint64 {
				if int64(q) == -1 {
					return -p
				}
				return uint64(int64(p) / int64(q))
			}
		} else {
			s = arith(OUdiv)
			f = func(p, q uint64) uint64 { return p / q }
		}
	case token.REM:
		div = true
		if signed {
			s = arith(OSrem)
			f = func(p, q uint64) uint64 {
				if int64(q) == -1 {
					return 0
				}
				return uint64(int64(p) % int64(q))
			}
		} else {
			s = arith(OUrem)
			f = func(p, q uint64) uint64 { return p % q }
		}
	case token.AND:
		s = arith(OBvAnd)
		f = func(p, q uint64) uint64 { return p & q }
	case token.OR:
		s = arith(OBvOr)
		f = func(p, q uint64) uint64 { return p | q }
	case token.XOR:
		s = arith(OBvXor)
		f = func(p, q uint64) uint64 { return p ^ q }
	case token.AND_NOT:
		s = sym(func(m *Machine, p, q *Term) *Term {
			return m.tt.Bin(OBvAnd, p, m.tt.Bin(OBvXor, q, m.tt.Const(bits, ^uint64(0))))
		}, false)
		f = func(p, q uint64) uint64 { return p &^ q }
	case token.SHL, token.SHR:
		yt := rtypeOf(x.Y.Type())
		left := x.Op == token.SHL
		return func(fr *frame) {
			m := fr.m
			p, q := a.get(fr), b.get(fr)
			if q.o == nil && yt.signed && int64(q.n) < 0 {
				m.goPanicStr("runtime error: negative shift amount")
			}
			if p.o == nil && q.o == nil {
				var r uint64
				if left {
					if q.n < 64 {
						r = p.n << q.n
					}
				} else if signed {
					n := q.n
					if n > 63 {
						n = 63
					}
					r = uint64(int64(p.n) >> n)
				} else if q.n < 64 {
					r = p.n >> q.n
				}
				fr.regs[d] = Value{n: canon(r, bits, signed)}
				return
			}
			cnt := m.toTerm(q, yt.bits)
			if yt.signed {
				if m.decide(m.tt.Cmp(OSlt, cnt, m.tt.Const(yt.bits, 0))) {
					m.goPanicStr("runtime error: negative shift amount")
				}
			}
			// saturate the count to the operand width
			var c2 *Term
			if yt.bits > bits {
				big := m.tt.Cmp(OUle, m.tt.Const(yt.bits, uint64(bits)), cnt)
				c2 = m.tt.Ite(big, m.tt.Const(bits, uint64(bits)), m.tt.Extract(cnt, bits))
			} else {
				c2 = m.tt.Zext(cnt, bits)
			}
			o := OShl
			if !left {
				o = OLshr
				if signed {
					o = OAshr
				}
			}
			fr.regs[d] = m.termVal(m.tt.Bin(o, m.toTerm(p, bits), c2), rt)
		}
	default:
		return func(fr *frame) { fr.m.unsupported("int op %s", x.Op) }
	}
	return func(fr *frame) {
		p, q := a.get(fr), b.get(fr)
		if div {
			if q.o == nil {
				if q.n == 0 {
					fr.m.goPanicStr("runtime error: integer divide by zero")
				}
			} else if fr.m.decide(fr.m.tt.Eq(q.o.(*Term), fr.m.tt.Const(bits, 0))) {
				fr.m.goPanicStr("runtime error: integer divide by zero")
			}
		}
		if p.o == nil && q.o == nil {
			fr.regs[d] = Value{n: canon(f(p.n, q.n), bits, signed)}
			return
		}
		s(fr, p, q)
	}
}

// ltStr: a<b (or a<=b).
func (m *Machine) ltStr(a, b *Str, orEq bool) *Term {
	if a.sym == nil && b.sym == nil {
		if orEq {
			return m.tt.Bool(a.s <= b.s)
		}
		return m.tt.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	var r *Term
	if orEq {
		r = m.tt.Bool(a.Len() <= b.Len())
	} else {
		r = m.tt.Bool(a.Len() < b.Len())
	}
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		r = m.tt.Or(m.tt.Cmp(OUlt, x, y), m.tt.And(m.tt.Eq(x, y), r))
	}
	return r
}

// ---- conversion ----

func (c *compiler) convert(d int32, o opnd, from, to types.Type) instr {
	if _, ok := from.(*types.TypeParam); ok {
		return func(fr *frame) { fr.m.unsupported("generic conversion") }
	}
	fr0, tr := rtypeOf(from), rtypeOf(to)
	switch {
	case fr0.kind == KInt && tr.kind == KInt:
		return func(fr *frame) {
			v := o.get(fr)
			if t, ok := v.o.(*Term); ok {
				m := fr.m
				switch {
				case tr.bits == fr0.bits:
				case tr.bits < fr0.bits:
					t = m.tt.Extract(t, tr.bits)
				case fr0.signed:
					t = m.tt.Sext(t, tr.bits)
				default:
					t = m.tt.Zext(t, tr.bits)
				}
				fr.regs[d] = m.termVal(t, tr)
				return
			}
			fr.regs[d] = Value{n: canon(v.n, tr.bits, tr.signed)}
		}
	case fr0.kind == KInt && tr.kind == KFloat:
		return func(fr *frame) {
			n := fr.m.concInt(o.get(fr), fr0)
			var f float64
			if fr0.signed {
				f = float64(n)
			} else {
				f = float64(uint64(n))
			}
			if tr.bits == 32 {
				f = float64(float32(f))
			}
			fr.regs[d] = floatVal(f)
		}
	case fr0.kind == KFloat && tr.kind == KInt:
		return func(fr *frame) {
			f := o.get(fr).float()
			if tr.signed {
				fr.regs[d] = Value{n: canon(uint64(int64(f)), tr.bits, true)}
			} else {
				fr.regs[d] = Value{n: canon(uint64(f), tr.bits, false)}
			}
		}
	case fr0.kind == KFloat && tr.kind == KFloat:
		return func(fr *frame) {
			f := o.get(fr).float()
			if tr.bits == 32 {
				f = float64(float32(f))
			}
			fr.regs[d] = floatVal(f)
		}
	case fr0.kind == KString && tr.kind == KSlice:
		if tr.elem.bits == 8 {
			return func(fr *frame) { fr.regs[d] = fr.m.strBytes(strOf(o.get(fr))) }
		}
		return func(fr *frame) {
			s := strOf(o.get(fr))
			var out []Value
			for i := 0; i < s.Len(); {
				r, n := fr.m.decodeRune(s, i)
				out = append(out, r)
				i += n
			}
			cells := fr.m.newCells(len(out))
			copy(cells, out)
			fr.regs[d] = Value{o: &Slice{cells}}
		}
	case fr0.kind == KSlice && tr.kind == KString:
		if fr0.elem.bits == 8 {
			return func(fr *frame) {
				v := o.get(fr)
				if v.o == nil {
					fr.regs[d] = Value{}
					return
				}
				fr.regs[d] = strVal(bytesToStr(v.o.(*Slice).a))
			}
		}
		return func(fr *frame) {
			v := o.get(fr)
			out := emptyStr
			if v.o != nil {
				for _, r := range v.o.(*Slice).a {
					out = concat(out, fr.m.encodeRune(r, rtInt32))
				}
			}
			fr.regs[d] = strVal(out)
		}
	case fr0.kind == KInt && tr.kind == KString:
		return func(fr *frame) { fr.regs[d] = strVal(fr.m.encodeRune(o.get(fr), fr0)) }
	case fr0.kind == tr.kind:
		return func(fr *frame) { fr.regs[d] = o.get(fr) }
	case fr0.kind == KUnsafe || tr.kind == KUnsafe:
		return func(fr *frame) { fr.regs[d] = o.get(fr) }
	}
	return func(fr *frame) { fr.m.unsupported("conversion %s -> %s", from, to) }
}

var rtInt32 = rtypeOf(types.Typ[types.Int32])
var rtInt = rtypeOf(types.Typ[types.Int])
var rtUint8 = rtypeOf(types.Typ[types.Uint8])

// decodeRune decodes the rune at s[i:].
func (m *Machine) decodeRune(s *Str, i int) (Value, int) {
	if s.sym == nil {
		r, n := decodeRuneString(s.s[i:])
		return Value{n: uint64(int64(r))}, n
	}
	t := s.sym[i]
	if m.decide(m.tt.Cmp(OUlt, t, m.tt.Const(8, 0x80))) {
		return m.termVal(m.tt.Zext(t, 32), rtInt32), 1
	}
	// multi-byte: concretise the bytes involved
	var buf []byte
	for j := i; j < s.Len() && j < i+4; j++ {
		t := s.sym[j]
		if j > i {
			// a byte that is not a continuation byte ends the sequence
			cont := m.tt.Eq(m.tt.Bin(OBvAnd, t, m.tt.Const(8, 0xC0)), m.tt.Const(8, 0x80))
			if !m.decide(cont) {
				buf = append(buf, 'x')
				break
			}
		}
		buf = append(buf, byte(m.concretize(t)))
		if j == i && buf[0] < 0xC2 {
			break
		}
		if fullRune(buf) {
			break
		}
	}
	r, n := decodeRuneString(string(buf))
	return Value{n: uint64(int64(r))}, n
}

func (m *Machine) encodeRune(v Value, rt *RType) *Str {
	t, ok := v.o.(*Term)
	if !ok {
		n := int64(v.n)
		if n < 0 || n > 0x10FFFF {
			n = 0xFFFD
		}
		return &Str{s: string(rune(n))}
	}
	if m.decide(m.tt.Cmp(OUlt, t, m.tt.Const(t.w, 0x80))) {
		return strOf(m.mkSym([]*Term{m.tt.Extract(t, 8)}))
	}
	n := m.concretize(t)
	return &Str{s: string(rune(int64(canon(n, rt.bits, rt.signed))))}
}

// ---- indexing ----

func (m *Machine) boundsCheck(i Value, rt *RType, n int) Value {
	if t, ok := i.o.(*Term); ok {
		in := m.tt.Cmp(OUlt, t, m.tt.Const(t.w, uint64(n)))
		if rt.bits < 64 && !rt.signed && uint64(n) > mask(rt.bits) {
			in = m.tt.T
		}
		if !m.decide(in) {
			m.goPanicStr(fmt.Sprintf("runtime error: index out of range with length %d", n))
		}
		return i
	}
	if int64(i.n) < 0 || int64(i.n) >= int64(n) {
		m.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.n), n))
	}
	return i
}

// tableLoad reads cells[t] with a symbolic in-bounds index; all cells scalars of type rt.
func (m *Machine) tableLoad(cells []Value, t *Term, rt *RType) (Value, bool) {
	w := rt.bits
	if rt.kind == KBool {
		w = 0
	} else if rt.kind != KInt {
		return Value{}, false
	}
	if len(cells) > 4096 {
		return Value{}, false
	}
	n := len(cells)
	if u := t.u; u < uint64(n) {
		n = int(u) + 1
	}
	cells = cells[:n]
	if n == 0 {
		return Value{}, false
	}
	// most frequent concrete value becomes the default
	freq := map[uint64]int{}
	var def uint64
	best := -1
	for _, c := range cells {
		if c.o == nil {
			freq[c.n]++
			if freq[c.n] > best {
				best = freq[c.n]
				def = c.n
			}
		}
	}
	res := m.tt.Const(w, def)
	for i := 0; i < len(cells); {
		c := cells[i]
		if c.o == nil && c.n == def {
			i++
			continue
		}
		j := i + 1
		for j < len(cells) && cells[j] == c {
			j++
		}
		var cond *Term
		if j == i+1 {
			cond = m.tt.Eq(t, m.tt.Const(t.w, uint64(i)))
		} else {
			cond = m.tt.And(m.tt.Cmp(OUle, m.tt.Const(t.w, uint64(i)), t), m.tt.Cmp(OUle, t, m.tt.Const(t.w, uint64(j-1))))
		}
		res = m.tt.Ite(cond, m.toTerm(c, w), res)
		i = j
	}
	if w == 0 {
		return m.boolTerm(res), true
	}
	return m.termVal(res, rt), true
}

func (c *compiler) index(x *ssa.Index) instr {
	d, o, i := c.reg(x), c.op(x.X), c.op(x.Index)
	it := rtypeOf(x.Index.Type())
	et := rtypeOf(x.Type())
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return func(fr *frame) { fr.regs[d] = fr.m.strIndex(strOf(o.get(fr)), i.get(fr), it) }
	}
	return func(fr *frame) {
		m := fr.m
		a := o.get(fr).o.(*Agg)
		iv := m.boundsCheck(i.get(fr), it, len(a.f))
		if t, ok := iv.o.(*Term); ok {
			if v, ok := m.tableLoad(a.f, t, et); ok {
				fr.regs[d] = v
				return
			}
			fr.regs[d] = a.f[m.concretize(t)]
			return
		}
		fr.regs[d] = a.f[iv.n]
	}
}

func (m *Machine) strIndex(s *Str, iv Value, it *RType) Value {
	iv = m.boundsCheck(iv, it, s.Len())
	if t, ok := iv.o.(*Term); ok {
		if s.sym == nil && s.Len() <= 512 {
			cells := make([]Value, s.Len())
			for j := range cells {
				cells[j] = Value{n: uint64(s.s[j])}
			}
			if v, ok := m.tableLoad(cells, t, rtUint8); ok {
				return v
			}
		}
		return byteVal(s.at(int(m.concretize(t))))
	}
	if s.sym == nil {
		return Value{n: uint64(s.s[iv.n])}
	}
	return byteVal(s.sym[iv.n])
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) instr {
	d, o, i := c.reg(x), c.op(x.X), c.op(x.Index)
	it := rtypeOf(x.Index.Type())
	// If every use is a plain load, a symbolic index can be read through a table.
	onlyLoads := true
	if refs := x.Referrers(); refs != nil {
		for _, r := range *refs {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				if _, ok := r.(*ssa.DebugRef); !ok {
					onlyLoads = false
				}
			}
		}
	}
	et := rtypeOf(x.Type().(*types.Pointer).Elem())
	isSlice := false
	if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
		isSlice = true
	}
	return func(fr *frame) {
		m := fr.m
		v := o.get(fr)
		var cells []Value
		if isSlice {
			if s, ok := v.o.(*Slice); ok {
				cells = s.a
			}
		} else {
			p := m.cell(v)
			a, ok := p.o.(*Agg)
			if !ok {
				m.unsupported("array access in reinterpreted memory")
			}
			cells = a.f
		}
		iv := m.boundsCheck(i.get(fr), it, len(cells))
		if t, ok := iv.o.(*Term); ok {
			if onlyLoads {
				if v, ok := m.tableLoad(cells, t, et); ok {
					cell := Value{n: v.n, o: v.o}
					fr.regs[d] = Value{o: &cell}
					return
				}
			}
			if onlyLoads {
				fr.regs[d] = Value{o: &cells[m.concretizeCell(t, cells)]}
				return
			}
			fr.regs[d] = Value{o: &cells[m.concretize(t)]}
			return
		}
		fr.regs[d] = Value{o: &cells[iv.n]}
	}
}

// concretizeCell is the index of a cell that is equal to the one at t: cells with
// equal values are not told apart.
func (m *Machine) concretizeCell(t *Term, cells []Value) uint64 {
	return m.concretizeBy(t, func(v uint64) *Term {
		n := uint64(len(cells))
		if t.u < n {
			n = t.u + 1
		}
		r := m.tt.F
		for i := uint64(0); i < n; {
			if i != v && cells[i] != cells[v] {
				i++
				continue
			}
			j := i + 1
			for j < n && (j == v || cells[j] == cells[v]) {
				j++
			}
			r = m.tt.Or(r, m.tt.And(m.tt.Cmp(OUle, m.tt.Const(t.w, i), t), m.tt.Cmp(OUle, t, m.tt.Const(t.w, j-1))))
			i = j
		}
		return r
	})
}

func (c *compiler) slice(x *ssa.Slice) instr {
	d, o := c.reg(x), c.op(x.X)
	var lo, hi, mx *opnd
	var lt, ht, mt *RType
	if x.Low != nil {
		t := c.op(x.Low)
		lo = &t
		lt = rtypeOf(x.Low.Type())
	}
	if x.High != nil {
		t := c.op(x.High)
		hi = &t
		ht = rtypeOf(x.High.Type())
	}
	if x.Max != nil {
		t := c.op(x.Max)
		mx = &t
		mt = rtypeOf(x.Max.Type())
	}
	ut := x.X.Type().Underlying()
	if b, ok := ut.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return func(fr *frame) {
			m := fr.m
			s := strOf(o.get(fr))
			l, h := int64(0), int64(s.Len())
			if lo != nil {
				l = m.concInt(lo.get(fr), lt)
			}
			if hi != nil {
				h = m.concInt(hi.get(fr), ht)
			}
			if l < 0 || h < l || h > int64(s.Len()) {
				m.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, s.Len()))
			}
			fr.regs[d] = strVal(s.slice(int(l), int(h)))
		}
	}
	_, isPtr := ut.(*types.Pointer)
	var et *RType
	if isPtr {
		et = rtypeOf(ut.(*types.Pointer).Elem().Underlying().(*types.Array).Elem())
	} else if s, ok := ut.(*types.Slice); ok {
		et = rtypeOf(s.Elem())
	}
	return func(fr *frame) {
		m := fr.m
		v := o.get(fr)
		var cells []Value
		isNil := false
		if isPtr {
			cells = m.cell(v).o.(*Agg).f
		} else if s, ok := v.o.(*Slice); ok {
			cells = s.a
		} else {
			isNil = true
		}
		l, h := int64(0), int64(len(cells))
		k := int64(cap(cells))
		if lo != nil {
			l = m.concInt(lo.get(fr), lt)
		}
		if hi != nil {
			h = m.concInt(hi.get(fr), ht)
		}
		if mx != nil {
			k = m.concInt(mx.get(fr), mt)
		}
		if k < 0 || k > int64(cap(cells)) || h < 0 || h > k || l < 0 || l > h {
			m.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, cap(cells)))
		}
		if isNil {
			fr.regs[d] = Value{}
			return
		}
		ns := cells[l:h:k]
		if et.isAgg() && h > int64(len(cells)) {
			for j := range ns {
				if ns[j].o == nil {
					ns[j] = m.zero(et)
				}
			}
		}
		fr.regs[d] = Value{o: &Slice{ns}}
	}
}

// ---- maps ----

func (m *Machine) newMap(rt *RType) *Map {
	return &Map{idx: map[any]int{}, old: m.initing, rt: rt}
}

type ifKey struct {
	rt int
	k  any
}

// mapKey gives a Go-comparable form of a concrete key.
func mapKey(rt *RType, v Value) (any, bool) {
	switch rt.kind {
	case KBool, KInt:
		if v.o != nil {
			return nil, false
		}
		return v.n, true
	case KFloat:
		return v.float(), true
	case KString:
		s := strOf(v)
		if s.sym != nil {
			return nil, false
		}
		return s.s, true
	case KIface:
		i, _ := v.o.(*Iface)
		if i == nil {
			return nil, true
		}
		k, ok := mapKey(i.rt, i.v)
		return ifKey{i.rt.id, k}, ok
	case KStruct, KArray:
		a := v.o.(*Agg)
		s := ""
		for i := range a.f {
			ft := rt.elem
			if rt.kind == KStruct {
				ft = rt.fields[i]
			}
			k, ok := mapKey(ft, a.f[i])
			if !ok {
				return nil, false
			}
			if p, isP := k.(*Value); isP {
				s += fmt.Sprintf("|%p", p)
			} else {
				s += fmt.Sprintf("|%q", fmt.Sprint(k))
			}
		}
		return s, true
	default:
		return v.o, true
	}
}

// mapFind returns the entry index or -1; may branch.
func (m *Machine) mapFind(mp *Map, k Value) int {
	if mp == nil || mp.live == 0 {
		return -1
	}
	ck, ok := mapKey(mp.rt.key, k)
	if ok && mp.nsym == 0 {
		if i, ok := mp.idx[ck]; ok {
			return i
		}
		return -1
	}
	type cand struct {
		i int
		t *Term
	}
	var cs []cand
	any := m.tt.F
	if ok {
		if i, ok := mp.idx[ck]; ok {
			return i
		}
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if e.dead {
			continue
		}
		t := m.eq(mp.rt.key, e.k, k)
		if t == m.tt.F {
			continue
		}
		if t == m.tt.T {
			return i
		}
		cs = append(cs, cand{i, t})
		any = m.tt.Or(any, t)
	}
	if len(cs) == 0 || !m.decide(any) {
		return -1
	}
	for j, c := range cs {
		if j == len(cs)-1 {
			m.assertPC(c.t, true)
			return c.i
		}
		if m.decide(c.t) {
			return c.i
		}
	}
	return -1
}

func (m *Machine) mapTouch(mp *Map) {
	if mp.old && !m.initing {
		cp := *mp
		cp.ents = append([]mapEnt(nil), mp.ents...)
		cp.idx = make(map[any]int, len(mp.idx))
		for k, v := range mp.idx {
			cp.idx[k] = v
		}
		m.mapLog = append(m.mapLog, jmap{mp, cp})
		mp.old = false
	}
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	if i, ok := k.o.(*Iface); ok && mp.rt.key.kind == KIface {
		switch i.rt.kind {
		case KSlice, KMap, KFunc:
			m.goPanicStr("runtime error: hash of unhashable type " + i.rt.String())
		}
	}
	i := m.mapFind(mp, k)
	m.mapTouch(mp)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	ck, ok := mapKey(mp.rt.key, k)
	if ok {
		mp.idx[ck] = len(mp.ents)
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, mapEnt{k: m.copyVal(k), v: v})
	mp.live++
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	m.mapTouch(mp)
	e := &mp.ents[i]
	if ck, ok := mapKey(mp.rt.key, e.k); ok {
		delete(mp.idx, ck)
	} else {
		mp.nsym--
	}
	e.dead = true
	mp.live--
}

type mapIter struct {
	mp    *Map
	i     int
	order []int
}

func (m *Machine) newMapIter(mp *Map) *mapIter {
	it := &mapIter{mp: mp}
	if mp != nil && m.mapNondet && mp.live > 1 {
		// arbitrary iteration order: a symbolic permutation
		var rest []int
		for i := range mp.ents {
			if !mp.ents[i].dead {
				rest = append(rest, i)
			}
		}
		for len(rest) > 0 {
			k := 0
			if len(rest) > 1 {
				k = m.choice(len(rest), "maporder")
			}
			it.order = append(it.order, rest[k])
			rest = append(rest[:k:k], rest[k+1:]...)
		}
	}
	return it
}

func (it *mapIter) next(m *Machine) (Value, Value, bool) {
	if it.mp == nil {
		return Value{}, Value{}, false
	}
	if it.order != nil {
		for it.i < len(it.order) {
			e := &it.mp.ents[it.order[it.i]]
			it.i++
			if !e.dead {
				return e.k, e.v, true
			}
		}
		return Value{}, Value{}, false
	}
	for it.i < len(it.mp.ents) {
		e := &it.mp.ents[it.i]
		it.i++
		if !e.dead {
			return e.k, e.v, true
		}
	}
	return Value{}, Value{}, false
}

func (c *compiler) lookup(x *ssa.Lookup) instr {
	d, o, k := c.reg(x), c.op(x.X), c.op(x.Index)
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		it := rtypeOf(x.Index.Type())
		return func(fr *frame) { fr.regs[d] = fr.m.strIndex(strOf(o.get(fr)), k.get(fr), it) }
	}
	vt := rtypeOf(x.X.Type().Underlying().(*types.Map).Elem())
	commaOk := x.CommaOk
	return func(fr *frame) {
		m := fr.m
		mp, _ := o.get(fr).o.(*Map)
		i := m.mapFind(mp, k.get(fr))
		var v Value
		if i >= 0 {
			v = mp.ents[i].v
		} else {
			v = m.zero(vt)
		}
		if commaOk {
			fr.regs[d] = Value{o: &Tuple{[]Value{v, boolVal(i >= 0)}}}
		} else {
			fr.regs[d] = v
		}
	}
}

// ---- type assertions ----

func (c *compiler) typeAssert(x *ssa.TypeAssert) instr {
	d, o := c.reg(x), c.op(x.X)
	at := rtypeOf(x.AssertedType)
	isIface := types.IsInterface(x.AssertedType)
	commaOk := x.CommaOk
	src := rtypeOf(x.X.Type())
	return func(fr *frame) {
		m := fr.m
		v := o.get(fr)
		i, _ := v.o.(*Iface)
		ok := false
		var out Value
		if i != nil {
			if isIface {
				if m.ex.prog.implements(i.rt, at) {
					ok = true
					out = v
				}
			} else if i.rt == at {
				ok = true
				out = i.v
			}
		}
		if commaOk {
			if !ok {
				out = m.zero(at)
			}
			fr.regs[d] = Value{o: &Tuple{[]Value{out, boolVal(ok)}}}
			return
		}
		if !ok {
			dyn := "nil"
			if i != nil {
				dyn = i.rt.String()
			}
			m.goPanicStr(fmt.Sprintf("interface conversion: %s is %s, not %s", src, dyn, at))
		}
		fr.regs[d] = out
	}
}

// ---- calls ----

func (c *compiler) callInstr(x ssa.Instruction, cc *ssa.CallCommon, d int32) instr {
	args := c.ops(cc.Args)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		name, pkg := cc.Method.Name(), cc.Method.Pkg()
		return func(fr *frame) {
			m := fr.m
			i, _ := recv.get(fr).o.(*Iface)
			if i == nil {
				m.nilDeref()
			}
			f := m.ex.prog.method(i.rt, name, pkg)
			if f == nil {
				m.unsupported("method %s on %s", name, i.rt)
			}
			a := m.argbuf(len(args)+1, f.nat != nil)
			a[0] = i.v
			for j := range args {
				a[j+1] = args[j].get(fr)
			}
			fr.regs[d] = m.call(f, a, nil, nil)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(x, b.Name(), cc, args, d)
	}
	if sf := cc.StaticCallee(); sf != nil {
		if _, isClosure := cc.Value.(*ssa.MakeClosure); !isClosure {
			f := c.p.fn(sf)
			pure := isPureFn(sf, 0) && f.nat == nil
			return func(fr *frame) {
				a := fr.m.argbuf(len(args), f.nat != nil)
				sym := false
				for j := range args {
					v := args[j].get(fr)
					if v.o != nil {
						sym = true
					}
					a[j] = v
				}
				if pure && sym {
					if v, ok := fr.m.evalPure(f, a); ok {
						fr.regs[d] = v
						return
					}
				}
				fr.regs[d] = fr.m.call(f, a, nil, nil)
			}
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) {
		cl, _ := fv.get(fr).o.(*Closure)
		a := fr.m.argbuf(len(args), cl == nil || cl.nat != nil || cl.fn.nat != nil)
		for j := range args {
			a[j] = args[j].get(fr)
		}
		fr.regs[d] = fr.m.callClosure(cl, a, nil)
	}
}

// argbuf returns space for call arguments: in place on the register stack, or
// on the heap for native callees.
func (m *Machine) argbuf(n int, heap bool) []Value {
	if heap || m.sp+n > len(m.stack) {
		return make([]Value, n)
	}
	return m.stack[m.sp : m.sp+n : m.sp+n]
}

// evalPure evaluates a loop-free scalar function into one term (no forking).
func (m *Machine) evalPure(f *Func, args []Value) (Value, bool) {
	m.ex.prog.ensure(f)
	if f.entry == nil {
		return Value{}, false
	}
	f.hit = 1
	regs := make([]Value, f.nregs)
	copy(regs, args)
	fr := &frame{m: m, regs: regs, fn: f, caller: m.fcur}
	m.fcur = fr
	defer func() { m.fcur = fr.caller }()
	budget := 300
	rt := f.results[0]
	w := rt.bits
	if rt.kind == KBool {
		w = 0
	}
	var eval func(b *block) *Term
	eval = func(b *block) *Term {
		for {
			budget--
			if budget < 0 {
				return nil
			}
			m.steps += b.cost
			for _, in := range b.code {
				in(fr)
			}
			if b.isIf {
				c := b.cond.get(fr)
				if t, ok := c.o.(*Term); ok {
					if v, ok := m.lookupKnown(t); ok {
						if v {
							b = takeEdge(fr, b.eT)
						} else {
							b = takeEdge(fr, b.eF)
						}
						continue
					}
					x := eval(takeEdge(fr, b.eT))
					if x == nil {
						return nil
					}
					y := eval(takeEdge(fr, b.eF))
					if y == nil {
						return nil
					}
					return m.tt.Ite(t, x, y)
				}
			}
			e := b.term(fr)
			if e == nil {
				return m.toTerm(fr.ret, w)
			}
			b = takeEdge(fr, e)
		}
	}
	t := eval(f.entry)
	if t == nil {
		return Value{}, false
	}
	if w == 0 {
		return m.boolTerm(t), true
	}
	return m.termVal(t, rt), true
}

func (c *compiler) deferInstr(x *ssa.Defer) instr {
	cc := &x.Call
	args := c.ops(cc.Args)
	getArgs := func(fr *frame) []Value {
		a := make([]Value, len(args))
		for i := range args {
			a[i] = args[i].get(fr)
		}
		return a
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		name, pkg := cc.Method.Name(), cc.Method.Pkg()
		return func(fr *frame) {
			i, _ := recv.get(fr).o.(*Iface)
			if i == nil {
				fr.m.nilDeref()
			}
			f := fr.m.ex.prog.method(i.rt, name, pkg)
			if f == nil {
				fr.m.unsupported("method %s", name)
			}
			fr.defers = append(fr.defers, deferred{fn: &Closure{fn: f}, args: append([]Value{i.v}, getArgs(fr)...)})
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return func(fr *frame) { fr.defers = append(fr.defers, deferred{bi: b.Name(), args: getArgs(fr)}) }
	}
	fv := c.op(cc.Value)
	return func(fr *frame) {
		cl, _ := fv.get(fr).o.(*Closure)
		fr.defers = append(fr.defers, deferred{fn: cl, args: getArgs(fr)})
	}
}

func (m *Machine) sliceOf(v Value) []Value {
	if s, ok := v.o.(*Slice); ok {
		return s.a
	}
	return nil
}

func (m *Machine) appendVals(dst Value, src []Value, et *RType) Value {
	var cells []Value
	if s, ok := dst.o.(*Slice); ok {
		cells = s.a
	}
	if len(src) == 0 {
		return dst
	}
	n := len(cells) + len(src)
	if n <= cap(cells) {
		out := cells[:n]
		for i, v := range src {
			p := &out[len(cells)+i]
			if et.isAgg() {
				m.set(p, m.copyVal(v))
			} else {
				m.set(p, v)
			}
		}
		return Value{o: &Slice{out}}
	}
	k := growCap(cap(cells), n)
	out := m.newCells(k)
	for i, v := range cells {
		out[i] = m.copyVal(v)
	}
	for i, v := range src {
		out[len(cells)+i] = m.copyVal(v)
	}
	for i := n; i < k; i++ {
		out[i] = Value{}
	}
	return Value{o: &Slice{out[:n:k]}}
}

// growCap follows the runtime's doubling; exact capacities are unspecified by the language.
func growCap(old, need int) int {
	k := old * 2
	if old >= 256 {
		k = old + old/4 + 192
	}
	if k < need {
		k = need
	}
	if k < 4 {
		k = need
	}
	return k
}

func (c *compiler) builtin(x ssa.Instruction, name string, cc *ssa.CallCommon, args []opnd, d int32) instr {
	switch name {
	case "len":
		rt := rtypeOf(cc.Args[0].Type())
		o := args[0]
		switch rt.kind {
		case KString:
			return func(fr *frame) { fr.regs[d] = Value{n: uint64(strOf(o.get(fr)).Len())} }
		case KSlice:
			return func(fr *frame) { fr.regs[d] = Value{n: uint64(len(fr.m.sliceOf(o.get(fr))))} }
		case KMap:
			return func(fr *frame) {
				n := 0
				if mp, ok := o.get(fr).o.(*Map); ok {
					n = mp.live
				}
				fr.regs[d] = Value{n: uint64(n)}
			}
		case KArray:
			return func(fr *frame) { fr.regs[d] = Value{n: uint64(rt.n)} }
		case KPtr:
			return func(fr *frame) { fr.regs[d] = Value{n: uint64(rt.elem.n)} }
		}
	case "cap":
		rt := rtypeOf(cc.Args[0].Type())
		o := args[0]
		switch rt.kind {
		case KSlice:
			return func(fr *frame) { fr.regs[d] = Value{n: uint64(cap(fr.m.sliceOf(o.get(fr))))} }
		case KArray:
			return func(fr *frame) { fr.regs[d] = Value{n: uint64(rt.n)} }
		}
	case "append":
		st := rtypeOf(cc.Args[0].Type())
		a := args[0]
		if len(args) == 1 {
			return func(fr *frame) { fr.regs[d] = a.get(fr) }
		}
		b := args[1]
		bt := rtypeOf(cc.Args[1].Type())
		if bt.kind == KString {
			return func(fr *frame) {
				s := strOf(b.get(fr))
				src := make([]Value, s.Len())
				for i := range src {
					src[i] = byteVal(s.at(i))
				}
				fr.regs[d] = fr.m.appendVals(a.get(fr), src, st.elem)
			}
		}
		return func(fr *frame) {
			fr.regs[d] = fr.m.appendVals(a.get(fr), fr.m.sliceOf(b.get(fr)), st.elem)
		}
	case "copy":
		a, b := args[0], args[1]
		bt := rtypeOf(cc.Args[1].Type())
		return func(fr *frame) {
			m := fr.m
			dst := m.sliceOf(a.get(fr))
			var src []Value
			if bt.kind == KString {
				s := strOf(b.get(fr))
				src = make([]Value, s.Len())
				for i := range src {
					src[i] = byteVal(s.at(i))
				}
			} else {
				src = m.sliceOf(b.get(fr))
			}
			n := len(dst)
			if len(src) < n {
				n = len(src)
			}
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = m.copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				m.set(&dst[i], tmp[i])
			}
			fr.regs[d] = intVal(n)
		}
	case "delete":
		a, k := args[0], args[1]
		return func(fr *frame) {
			if mp, ok := a.get(fr).o.(*Map); ok {
				fr.m.mapDelete(mp, k.get(fr))
			}
		}
	case "clear":
		a := args[0]
		rt := rtypeOf(cc.Args[0].Type())
		return func(fr *frame) {
			switch o := a.get(fr).o.(type) {
			case *Map:
				fr.m.mapTouch(o)
				o.ents, o.idx, o.nsym, o.live = nil, map[any]int{}, 0, 0
			case *Slice:
				for i := range o.a {
					fr.m.store(&o.a[i], fr.m.zero(rt.elem))
				}
			}
		}
	case "panic":
		a := args[0]
		return func(fr *frame) { v := a.get(fr); fr.m.goPanicVal(v, fr.m.panicMsg(v)) }
	case "recover":
		return func(fr *frame) {
			p := fr.deferOf
			if p != nil && p.pan != nil {
				v := p.pan.val
				p.pan = nil
				fr.regs[d] = v
				return
			}
			fr.regs[d] = Value{}
		}
	case "print", "println":
		return func(fr *frame) {}
	case "min", "max":
		rt := rtypeOf(cc.Args[0].Type())
		as := args
		isMin := name == "min"
		return func(fr *frame) {
			m := fr.m
			v := as[0].get(fr)
			for _, o := range as[1:] {
				w := o.get(fr)
				switch rt.kind {
				case KInt:
					if v.o == nil && w.o == nil {
						lt := v.n < w.n
						if rt.signed {
							lt = int64(v.n) < int64(w.n)
						}
						if lt != isMin {
							v = w
						}
						continue
					}
					x, y := m.toTerm(v, rt.bits), m.toTerm(w, rt.bits)
					op := OUlt
					if rt.signed {
						op = OSlt
					}
					lt := m.tt.Cmp(op, x, y)
					if isMin {
						v = m.termVal(m.tt.Ite(lt, x, y), rt)
					} else {
						v = m.termVal(m.tt.Ite(lt, y, x), rt)
					}
				case KFloat:
					if isMin {
						v = floatVal(math.Min(v.float(), w.float()))
					} else {
						v = floatVal(math.Max(v.float(), w.float()))
					}
				case KString:
					lt := m.decide(m.ltStr(strOf(v), strOf(w), false))
					if lt != isMin {
						v = w
					}
				}
			}
			fr.regs[d] = v
		}
	case "ssa:wrapnilchk":
		a := args[0]
		return func(fr *frame) {
			v := a.get(fr)
			if v.o == nil {
				fr.m.nilDeref()
			}
			fr.regs[d] = v
		}
	case "String": // unsafe.String(ptr, len): only for pointers produced by unsafe.SliceData/StringData
		a, n := args[0], args[1]
		return func(fr *frame) {
			v := a.get(fr)
			k := fr.m.concInt(n.get(fr), rtInt)
			o, ok := v.o.(*NObj)
			if !ok {
				if k == 0 {
					fr.regs[d] = Value{}
					return
				}
				fr.m.unsupported("unsafe.String")
			}
			switch x := o.v.(type) {
			case []Value:
				fr.regs[d] = strVal(bytesToStr(x[:k]))
			case *Str:
				fr.regs[d] = strVal(x.slice(0, int(k)))
			}
		}
	case "SliceData":
		a := args[0]
		return func(fr *frame) {
			s := fr.m.sliceOf(a.get(fr))
			fr.regs[d] = Value{o: &NObj{"slicedata", s[:cap(s)]}}
		}
	case "StringData":
		a := args[0]
		return func(fr *frame) { fr.regs[d] = Value{o: &NObj{"stringdata", strOf(a.get(fr))}} }
	case "Slice":
		a, n := args[0], args[1]
		return func(fr *frame) {
			v := a.get(fr)
			k := fr.m.concInt(n.get(fr), rtInt)
			o, ok := v.o.(*NObj)
			if !ok {
				fr.m.unsupported("unsafe.Slice")
			}
			switch x := o.v.(type) {
			case []Value:
				fr.regs[d] = Value{o: &Slice{x[:k]}}
			case *Str:
				fr.regs[d] = fr.m.strBytes(x.slice(0, int(k)))
			}
		}
	}
	return func(fr *frame) { fr.m.unsupported("builtin %s in %s", name, fr.fn.name) }
}
