package main

import (
	"fmt"
	"strconv"
)

var symIntrinsics = map[string]intrinsic{}

func regSym() {
	r := func(n string, f intrinsic) { symIntrinsics[n] = f }
	r("Byte", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		t, _ := m.newVar(8, "byte")
		return Value{o: t}, true
	})
	r("ByteRange", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		lo, hi := a[0].n, a[1].n
		if lo == hi {
			return Value{n: lo}, true
		}
		t, idx := m.newVar(8, "byte")
		m.seed(idx, lo, func(v uint64) bool { return lo <= v && v <= hi })
		m.assume(m.tt.And(m.tt.Cmp(OUle, m.tt.Const(8, lo), t), m.tt.Cmp(OUle, t, m.tt.Const(8, hi))))
		return Value{o: t}, true
	})
	r("ByteIn", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		set := strOf(a[0]).s
		if len(set) == 1 {
			return Value{n: uint64(set[0])}, true
		}
		t, idx := m.newVar(8, "byte")
		m.seed(idx, uint64(set[0]), func(v uint64) bool {
			for i := 0; i < len(set); i++ {
				if uint64(set[i]) == v {
					return true
				}
			}
			return false
		})
		m.assume(m.inSet(t, set))
		return Value{o: t}, true
	})
	r("Bool", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		t, _ := m.newVar(0, "bool")
		return Value{o: t}, true
	})
	r("Uint64", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		t, _ := m.newVar(64, "uint64")
		return Value{o: t}, true
	})
	r("Int", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		lo, hi := int64(a[0].n), int64(a[1].n)
		if lo > hi {
			m.unsupported("sym.Int range")
		}
		if lo == hi {
			return Value{n: uint64(lo)}, true
		}
		w := uint8(64)
		if lo >= 0 {
			switch {
			case hi < 1<<8:
				w = 8
			case hi < 1<<16:
				w = 16
			case hi < 1<<32:
				w = 32
			}
		}
		t, idx := m.newVar(w, "int")
		m.seed(idx, uint64(lo), func(v uint64) bool { return lo <= int64(v) && int64(v) <= hi })
		if w == 64 {
			m.assume(m.tt.And(m.tt.Cmp(OSle, m.tt.Const(64, uint64(lo)), t), m.tt.Cmp(OSle, t, m.tt.Const(64, uint64(hi)))))
			return Value{o: t}, true
		}
		m.assume(m.tt.And(m.tt.Cmp(OUle, m.tt.Const(w, uint64(lo)), t), m.tt.Cmp(OUle, t, m.tt.Const(w, uint64(hi)))))
		return m.termVal(m.tt.Zext(t, 64), rtInt), true
	})
	r("Choice", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		n := a[0].int()
		if n == 1 {
			return Value{}, true
		}
		return intVal(m.choice(n, "choice")), true
	})
	r("Assume", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		m.assume(m.toTerm(a[0], 0))
		return Value{}, true
	})
	r("Assert", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		msg := strOf(a[1])
		c := m.toTerm(a[0], 0)
		m.chk++
		m.curMsg = msg
		m.assertTerm(c, msg.show())
		return Value{}, true
	})
	r("Fail", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		m.chk++
		m.assertTerm(m.tt.F, strOf(a[0]).show())
		return Value{}, true
	})
	r("Cover", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		m.covers[strOf(a[0]).show()] = true
		return Value{}, true
	})
	r("Tag", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		m.tags = append(m.tags, strOf(a[0]).show())
		return Value{}, true
	})
	r("Observe", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		m.observe = append(m.observe, strOf(a[0]))
		return Value{}, true
	})
	r("And", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.boolTerm(m.tt.And(m.toTerm(a[0], 0), m.toTerm(a[1], 0))), true
	})
	r("Or", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.boolTerm(m.tt.Or(m.toTerm(a[0], 0), m.toTerm(a[1], 0))), true
	})
	r("Not", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.boolTerm(m.tt.Not(m.toTerm(a[0], 0))), true
	})
	r("Symbolic", func(m *Machine, fn *Func, a []Value) (Value, bool) { return boolVal(true), true })
	r("Contains", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return m.boolTerm(m.anyIndex(strOf(a[0]), strOf(a[1]))), true
	})
	r("MapOrder", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		m.mapNondet = a[0].n != 0
		return Value{}, true
	})
	r("Stdout", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := concatAll(m.stdout...)
		m.stdout = nil
		return strVal(s), true
	})
	r("File", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		p := "/sym/file" + strconv.Itoa(len(m.files))
		m.files[p] = strOf(a[0])
		return mkStr(p), true
	})
	r("Concretize", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return mkStr(m.concStr(strOf(a[0]))), true
	})
	// Catch(f) (code int, msg string): 0 normal, -1 panic, n+1000 os.Exit(n)
	r("Catch", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		code, msg := m.catch(func() { m.callValue(a[0]) })
		return tuple(intVal(code), mkStr(msg)), true
	})
	// Steps(limit, f): runs f; true when it finished within limit interpreter steps.
	r("Within", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		lim := m.steps + int64(a[0].n)
		save := m.softLimit
		m.softLimit = lim
		ok := true
		func() {
			sp, depth, fc := m.sp, m.depth, m.fcur
			defer func() {
				if r := recover(); r != nil {
					if e, is := r.(*pathEnd); is && e.kind == "softlimit" {
						m.sp, m.depth, m.fcur = sp, depth, fc
						ok = false
						return
					}
					panic(r)
				}
			}()
			m.callValue(a[1])
		}()
		m.softLimit = save
		return boolVal(ok), true
	})
	// Field(x, name): a field, exported or not, of the struct x points to.
	r("Field", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		x, ok := a[0].o.(*Iface)
		if !ok || x.rt.kind != KPtr {
			m.unsupported("sym.Field of no pointer")
		}
		p, ok := x.v.o.(*Value)
		rt := x.rt.elem
		if !ok || rt.kind != KStruct {
			m.unsupported("sym.Field of no structure")
		}
		name := strOf(a[1]).s
		for i, f := range rt.fnames {
			if f != name {
				continue
			}
			v := m.copyVal(p.o.(*Agg).f[i])
			if rt.fields[i].kind == KIface {
				return v, true
			}
			return Value{o: &Iface{rt: rt.fields[i], v: v}}, true
		}
		return Value{}, true
	})
	r("Dump", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		if debugDump {
			fmt.Println(m.evalStr(strOf(a[0])))
		}
		return Value{}, true
	})
}

var debugDump bool

func (m *Machine) catch(f func()) (code int, msg string) {
	sp, depth, fc := m.sp, m.depth, m.fcur
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case *goPanic:
				code, msg = -1, e.msg
			case *pathEnd:
				if e.kind != "exit" {
					panic(r)
				}
				code, msg = 1000+e.code, e.msg
			default:
				panic(r)
			}
			m.sp, m.depth, m.fcur = sp, depth, fc
		}
	}()
	f()
	return 0, ""
}

// seed gives a fresh variable a value in its range when the model has none.
func (m *Machine) seed(idx int, v uint64, ok func(uint64) bool) {
	if m.pos >= len(m.prefix) && !ok(m.model[idx]) {
		m.model[idx] = v
	}
}

func regMisc() {
	reg("github.com/k0kubun/sqldef/sqlparser/dependency/hack.String", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		// snapshot semantics would differ if the bytes were changed later; callers do not
		return strVal(bytesToStr(m.sliceOf(a[0]))), true
	})
}
