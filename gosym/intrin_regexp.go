package main

import (
	"regexp"
	"regexp/syntax"
	"strings"
)

type nregexp struct {
	re      *regexp.Regexp
	prog    *syntax.Prog
	longest bool
	ncap    int
}

func compileRe(expr string, posix bool) (*nregexp, error) {
	var re *regexp.Regexp
	var err error
	fl := syntax.Perl
	if posix {
		re, err = regexp.CompilePOSIX(expr)
		fl = syntax.POSIX
	} else {
		re, err = regexp.Compile(expr)
	}
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(expr, fl)
	if err != nil {
		return nil, err
	}
	ncap := p.MaxCap()
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	return &nregexp{re, prog, posix, ncap}, nil
}

// matchAt returns the capture positions of the match starting exactly at pos.
func (m *Machine) matchAt(r *nregexp, s *Str, pos int) []int {
	n := s.Len()
	isByte := func(i int, c byte) bool {
		if i < 0 || i >= n {
			return false
		}
		return m.decide(m.tt.Eq(s.at(i), byteConst[c]))
	}
	word := func(i int) bool {
		if i < 0 || i >= n {
			return false
		}
		t := s.at(i)
		rg := func(lo, hi byte) *Term {
			return m.tt.And(m.tt.Cmp(OUle, byteConst[lo], t), m.tt.Cmp(OUle, t, byteConst[hi]))
		}
		return m.decide(m.tt.Or(m.tt.Or(rg('a', 'z'), rg('A', 'Z')), m.tt.Or(rg('0', '9'), m.tt.Eq(t, byteConst['_']))))
	}
	var best []int
	type key struct {
		pc uint32
		i  int
	}
	seen := map[key]bool{}
	var run func(pc uint32, i int, caps []int) bool
	run = func(pc uint32, i int, caps []int) bool {
		k := key{pc, i}
		if seen[k] && !r.longest {
			return false
		}
		if r.longest {
			// leftmost-longest needs only the extent; captures beyond 0 are not tracked exactly
			if seen[k] {
				return false
			}
		}
		seen[k] = true
		in := &r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return false
		case syntax.InstAlt, syntax.InstAltMatch:
			if run(in.Out, i, caps) {
				return true
			}
			return run(in.Arg, i, caps)
		case syntax.InstNop:
			return run(in.Out, i, caps)
		case syntax.InstCapture:
			if int(in.Arg) < len(caps) {
				c2 := append([]int(nil), caps...)
				c2[in.Arg] = i
				caps = c2
			}
			return run(in.Out, i, caps)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			if e&syntax.EmptyBeginText != 0 && i != 0 {
				return false
			}
			if e&syntax.EmptyEndText != 0 && i != n {
				return false
			}
			if e&syntax.EmptyBeginLine != 0 && i != 0 && !isByte(i-1, '\n') {
				return false
			}
			if e&syntax.EmptyEndLine != 0 && i != n && !isByte(i, '\n') {
				return false
			}
			if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				b := word(i-1) != word(i)
				if e&syntax.EmptyWordBoundary != 0 && !b || e&syntax.EmptyNoWordBoundary != 0 && b {
					return false
				}
			}
			return run(in.Out, i, caps)
		case syntax.InstMatch:
			c2 := append([]int(nil), caps...)
			c2[1] = i
			if r.longest {
				if best == nil || i > best[1] {
					best = c2
				}
				return false
			}
			best = c2
			return true
		default:
			if i >= n {
				return false
			}
			if !m.decide(m.runeCond(in, s.at(i))) {
				return false
			}
			return run(in.Out, i+1, caps)
		}
	}
	caps := make([]int, 2*(r.ncap+1))
	for i := range caps {
		caps[i] = -1
	}
	caps[0] = pos
	run(uint32(r.prog.Start), pos, caps)
	return best
}

func (m *Machine) runeCond(in *syntax.Inst, t *Term) *Term {
	switch in.Op {
	case syntax.InstRuneAny:
		return m.tt.T
	case syntax.InstRuneAnyNotNL:
		return m.tt.Not(m.tt.Eq(t, byteConst['\n']))
	}
	r := m.tt.F
	rg := func(lo, hi rune) {
		if lo > 0x7f {
			return
		}
		if hi > 0x7f {
			hi = 0x7f
		}
		r = m.tt.Or(r, m.tt.And(m.tt.Cmp(OUle, byteConst[byte(lo)], t), m.tt.Cmp(OUle, t, byteConst[byte(hi)])))
	}
	if len(in.Rune) == 1 {
		c := in.Rune[0]
		rg(c, c)
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			if c >= 'a' && c <= 'z' {
				rg(c-32, c-32)
			} else if c >= 'A' && c <= 'Z' {
				rg(c+32, c+32)
			}
		}
		return r
	}
	for i := 0; i+1 < len(in.Rune); i += 2 {
		rg(in.Rune[i], in.Rune[i+1])
	}
	return r
}

// findAll returns up to n matches (n<0: all), with regexp's rules for empty matches.
func (m *Machine) findAll(r *nregexp, s *Str, n int) [][]int {
	var out [][]int
	end := s.Len()
	prevEnd := -1
	for pos, i := 0, 0; (n < 0 || i < n) && pos <= end; {
		var mt []int
		for p := pos; p <= end; p++ {
			if mt = m.matchAt(r, s, p); mt != nil {
				break
			}
		}
		if mt == nil {
			break
		}
		accept := true
		if mt[1] == pos {
			if mt[0] == prevEnd {
				accept = false
			}
			pos++
		} else {
			pos = mt[1]
		}
		prevEnd = mt[1]
		if accept {
			out = append(out, mt)
			i++
		}
	}
	return out
}

func regRegexp() {
	comp := func(posix, must bool) intrinsic {
		return func(m *Machine, fn *Func, a []Value) (Value, bool) {
			r, err := compileRe(m.concStr(strOf(a[0])), posix)
			if err != nil {
				if must {
					v := m.mkError("regexp: " + err.Error())
					m.goPanicVal(v, err.Error())
				}
				return tuple(Value{}, m.mkError(err.Error())), true
			}
			v := Value{o: &NObj{"regexp", r}}
			if must {
				return v, true
			}
			return tuple(v, Value{}), true
		}
	}
	reg("regexp.MustCompile", comp(false, true))
	reg("regexp.MustCompilePOSIX", comp(true, true))
	reg("regexp.Compile", comp(false, false))
	reg("regexp.CompilePOSIX", comp(true, false))
	native("regexp.QuoteMeta", regexp.QuoteMeta)
	get := func(m *Machine, v Value) *nregexp {
		o, _ := v.o.(*NObj)
		if o == nil {
			m.nilDeref()
		}
		return o.v.(*nregexp)
	}
	ready := func(m *Machine, s *Str) *Str {
		if s.sym != nil && !m.asciiOnly(s) {
			return cstr(m.concStr(s))
		}
		return s
	}
	ints := func(m *Machine, x []int) Value {
		if x == nil {
			return Value{}
		}
		c := m.newCells(len(x))
		for i := range x {
			c[i] = intVal(x[i])
		}
		return Value{o: &Slice{c}}
	}
	first := func(m *Machine, r *nregexp, s *Str) []int {
		if s.sym == nil {
			return r.re.FindStringSubmatchIndex(s.s)
		}
		l := m.findAll(r, s, 1)
		if len(l) == 0 {
			return nil
		}
		return l[0]
	}
	all := func(m *Machine, r *nregexp, s *Str, n int) [][]int {
		if s.sym == nil {
			return r.re.FindAllStringSubmatchIndex(s.s, n)
		}
		return m.findAll(r, s, n)
	}
	reg("(*regexp.Regexp).MatchString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return boolVal(first(m, get(m, a[0]), ready(m, strOf(a[1]))) != nil), true
	})
	reg("(*regexp.Regexp).Match", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return boolVal(first(m, get(m, a[0]), ready(m, bytesToStr(m.sliceOf(a[1])))) != nil), true
	})
	reg("(*regexp.Regexp).FindString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := ready(m, strOf(a[1]))
		x := first(m, get(m, a[0]), s)
		if x == nil {
			return Value{}, true
		}
		return strVal(s.slice(x[0], x[1])), true
	})
	reg("(*regexp.Regexp).FindStringIndex", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		x := first(m, get(m, a[0]), ready(m, strOf(a[1])))
		if x == nil {
			return Value{}, true
		}
		return ints(m, x[:2]), true
	})
	reg("(*regexp.Regexp).FindStringSubmatchIndex", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return ints(m, first(m, get(m, a[0]), ready(m, strOf(a[1])))), true
	})
	subs := func(m *Machine, s *Str, x []int) Value {
		var p []*Str
		for i := 0; i+1 < len(x); i += 2 {
			if x[i] < 0 {
				p = append(p, emptyStr)
			} else {
				p = append(p, s.slice(x[i], x[i+1]))
			}
		}
		return m.strSlice(p)
	}
	reg("(*regexp.Regexp).FindStringSubmatch", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := ready(m, strOf(a[1]))
		x := first(m, get(m, a[0]), s)
		if x == nil {
			return Value{}, true
		}
		return subs(m, s, x), true
	})
	reg("(*regexp.Regexp).FindAllString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := ready(m, strOf(a[1]))
		var p []*Str
		for _, x := range all(m, get(m, a[0]), s, a[2].int()) {
			p = append(p, s.slice(x[0], x[1]))
		}
		if p == nil {
			return Value{}, true
		}
		return m.strSlice(p), true
	})
	reg("(*regexp.Regexp).Split", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := ready(m, strOf(a[1]))
		r := get(m, a[0])
		if s.sym == nil {
			var p []*Str
			for _, x := range r.re.Split(s.s, a[2].int()) {
				p = append(p, cstr(x))
			}
			return m.strSlice(p), true
		}
		if a[2].int() >= 0 {
			m.unsupported("regexp Split with a limit")
		}
		var p []*Str
		beg, end := 0, 0
		for _, x := range m.findAll(r, s, -1) {
			end = x[0]
			if x[1] != 0 {
				p = append(p, s.slice(beg, end))
			}
			beg = x[1]
		}
		if end != s.Len() {
			p = append(p, s.slice(beg, s.Len()))
		}
		return m.strSlice(p), true
	})
	repl := func(m *Machine, r *nregexp, s *Str, f func(x []int) *Str) Value {
		out := emptyStr
		last := 0
		for _, x := range all(m, r, s, -1) {
			out = concat(out, s.slice(last, x[0]))
			out = concat(out, f(x))
			last = x[1]
		}
		return strVal(concat(out, s.slice(last, s.Len())))
	}
	reg("(*regexp.Regexp).ReplaceAllString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		r, s, rep := get(m, a[0]), ready(m, strOf(a[1])), strOf(a[2])
		if rep.sym != nil {
			for i := 0; i < rep.Len(); i++ {
				if m.decide(m.tt.Eq(rep.at(i), byteConst['$'])) {
					rep = cstr(m.concStr(rep))
					break
				}
			}
		}
		if rep.sym == nil && strings.Contains(rep.s, "$") {
			if s.sym == nil {
				return mkStr(r.re.ReplaceAllString(s.s, rep.s)), true
			}
			c := m.concStr(s)
			return mkStr(r.re.ReplaceAllString(c, rep.s)), true
		}
		return repl(m, r, s, func(x []int) *Str { return rep }), true
	})
	reg("(*regexp.Regexp).ReplaceAllLiteralString", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return repl(m, get(m, a[0]), ready(m, strOf(a[1])), func(x []int) *Str { return strOf(a[2]) }), true
	})
	reg("(*regexp.Regexp).ReplaceAllStringFunc", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		s := ready(m, strOf(a[1]))
		return repl(m, get(m, a[0]), s, func(x []int) *Str {
			return strOf(m.callValue(a[2], strVal(s.slice(x[0], x[1]))))
		}), true
	})
	reg("(*regexp.Regexp).String", func(m *Machine, fn *Func, a []Value) (Value, bool) {
		return mkStr(get(m, a[0]).re.String()), true
	})
}
