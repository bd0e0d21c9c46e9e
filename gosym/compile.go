package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Func is a compiled SSA function, shared by all machines.
type Func struct {
	ssa      *ssa.Function
	name     string
	once     sync.Once
	nregs    int
	entry    *block
	recoverB *block
	hasDefer bool
	results  []*RType
	nat      intrinsic
	natFull  bool
	skip     bool // package initialiser of another package
	hit      int32
	inRepo   bool
	pure     int8 // 0 unknown 1 yes 2 no
	err      string
	namedRes []int32
}

type intrinsic func(m *Machine, fn *Func, args []Value) (Value, bool)

type opnd struct {
	r int32 // >=0 register; -1 constant; -2 global
	g int32
	c Value
}

func (o *opnd) get(fr *frame) Value {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	if o.r == -1 {
		return o.c
	}
	return Value{o: fr.m.gcell(int(o.g))}
}

type instr func(fr *frame)

type move struct {
	dst int32
	src opnd
}
type edge struct {
	to    *block
	moves []move
}
type block struct {
	idx   int
	code  []instr
	term  func(fr *frame) *edge
	cost  int64
	ssa   *ssa.BasicBlock
	nphi  int
	pureS int8 // side-effect free scalar block ending in If/Jump: 1 yes
	cond  opnd
	eT    *edge
	eF    *edge
	isIf  bool
}

type deferred struct {
	fn   *Closure
	args []Value
	bi   string
}

type frame struct {
	m       *Machine
	regs    []Value
	fn      *Func
	free    []Value
	defers  []deferred
	pan     *goPanic
	deferOf *frame
	caller  *frame
	ret     Value
}

type Program struct {
	prog       *ssa.Program
	mu         sync.Mutex
	fns        map[*ssa.Function]*Func
	globals    []*globalInfo
	gidx       map[*ssa.Global]int
	runtimeErr *RType
	rtString   *RType
	rtError    *RType
	rtWrap     *RType
	implMu     sync.RWMutex
	impl       map[[2]int]bool
	repo       string
}

type globalInfo struct {
	g     *ssa.Global
	pkg   *ssa.Package
	rt    *RType
	guard bool
}

func (p *Program) global(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.gidx[g]; ok {
		return i
	}
	i := len(p.globals)
	if i >= maxGlobals {
		panic("too many globals")
	}
	p.globals = append(p.globals, &globalInfo{g: g, pkg: g.Pkg, rt: rtypeOf(g.Type().(*types.Pointer).Elem()), guard: g.Name() == "init$guard"})
	p.gidx[g] = i
	return i
}

const maxGlobals = 1 << 15

func (p *Program) fn(f *ssa.Function) *Func {
	p.mu.Lock()
	c, ok := p.fns[f]
	if !ok {
		c = &Func{ssa: f, name: f.String()}
		p.fns[f] = c
	}
	p.mu.Unlock()
	c.once.Do(func() { p.prepare(c) })
	return c
}

func (p *Program) prepare(c *Func) {
	f := c.ssa
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	pkg := f.Pkg
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Pkg
	}
	if pkg != nil && strings.HasPrefix(pkg.Pkg.Path(), "github.com/k0kubun/sqldef") && !strings.Contains(pkg.Pkg.Path(), "/zverif") {
		c.inRepo = true
	} else if f.Parent() != nil {
		pp := f.Parent()
		for pp.Parent() != nil {
			pp = pp.Parent()
		}
		if pp.Pkg != nil && strings.HasPrefix(pp.Pkg.Pkg.Path(), "github.com/k0kubun/sqldef") && !strings.Contains(pp.Pkg.Pkg.Path(), "/zverif") {
			c.inRepo = true
		}
	}
	if f.Synthetic == "package initializer" {
		c.skip = true // called explicitly by initPackage only
	}
	if in, ok := intrinsics[name]; ok {
		c.nat = in
	}
	if strings.Contains(name, "zverif/sym.") {
		if in, ok := symIntrinsics[f.Name()]; ok {
			c.nat = in
		}
	}
	sig := f.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		c.results = append(c.results, rtypeOf(sig.Results().At(i).Type()))
	}
}

var compileMu sync.Mutex

func (p *Program) ensure(c *Func) {
	if c.entry != nil || c.err != "" {
		return
	}
	compileMu.Lock()
	defer compileMu.Unlock()
	if c.entry != nil || c.err != "" {
		return
	}
	f := c.ssa
	if len(f.Blocks) == 0 {
		c.err = "no body: " + c.name
		return
	}
	defer func() {
		if r := recover(); r != nil {
			c.err = fmt.Sprintf("compile %s: %v", c.name, r)
			c.entry = nil
		}
	}()
	cp := &compiler{p: p, f: c, regs: map[ssa.Value]int32{}}
	cp.compile()
}

type compiler struct {
	p    *Program
	f    *Func
	regs map[ssa.Value]int32
	n    int32
	blks []*block
}

func (c *compiler) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.n
	c.n++
	c.regs[v] = r
	return r
}

func constValue(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if c.Value == nil {
		rt := rtypeOf(c.Type())
		if rt.isAgg() {
			// zero aggregate: materialised at use
			m := &Machine{}
			return m.zero(rt)
		}
		return Value{}
	}
	switch b := t.(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolVal(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			bits, signed := intInfo(b)
			if signed {
				return Value{n: canon(uint64(c.Int64()), bits, true)}
			}
			return Value{n: canon(c.Uint64(), bits, false)}
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return floatVal(f)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return mkStr(constant.StringVal(c.Value))
			}
			return mkStr(string(rune(c.Int64())))
		case b.Info()&types.IsComplex != 0:
			return Value{}
		}
	case *types.TypeParam:
	}
	panic(fmt.Sprintf("const %s", c))
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{r: -1, c: constValue(v)}
	case *ssa.Global:
		return opnd{r: -2, g: int32(c.p.global(v))}
	case *ssa.Function:
		return opnd{r: -1, c: Value{o: &Closure{fn: c.p.fnLocked(v)}}}
	case *ssa.Builtin:
		panic("builtin value")
	case *ssa.FreeVar:
		return opnd{r: c.reg(v)}
	}
	return opnd{r: c.reg(v)}
}

// fnLocked is fn, callable while compiling (compileMu is not used by fn).
func (p *Program) fnLocked(f *ssa.Function) *Func { return p.fn(f) }

func (c *compiler) compile() {
	f := c.f.ssa
	for _, p := range f.Params {
		c.reg(p)
	}
	for _, fv := range f.FreeVars {
		c.reg(fv)
	}
	c.blks = make([]*block, len(f.Blocks))
	for i, b := range f.Blocks {
		c.blks[i] = &block{idx: i, ssa: b}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.f.hasDefer = true
			}
		}
	}
	for i, b := range f.Blocks {
		c.block(c.blks[i], b)
	}
	c.switches()
	if f.Recover != nil {
		c.f.recoverB = c.blks[f.Recover.Index]
	}
	c.f.nregs = int(c.n)
	c.f.entry = c.blks[0]
}

func (c *compiler) edge(from *ssa.BasicBlock, to *ssa.BasicBlock) *edge {
	e := &edge{to: c.blks[to.Index]}
	// which predecessor index (first match; duplicate edges have identical phis values only if equal)
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{c.reg(phi), c.op(phi.Edges[pi])})
	}
	return e
}

// edgeN is edge for the n-th occurrence of from among to's predecessors.
func (c *compiler) edgeN(from, to *ssa.BasicBlock, n int) *edge {
	e := &edge{to: c.blks[to.Index]}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if n == 0 {
				pi = i
				break
			}
			n--
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, move{c.reg(phi), c.op(phi.Edges[pi])})
	}
	return e
}

func takeEdge(fr *frame, e *edge) *block {
	switch len(e.moves) {
	case 0:
	case 1:
		fr.regs[e.moves[0].dst] = e.moves[0].src.get(fr)
	default:
		var buf [8]Value
		tmp := buf[:0]
		for i := range e.moves {
			tmp = append(tmp, e.moves[i].src.get(fr))
		}
		for i := range e.moves {
			fr.regs[e.moves[i].dst] = tmp[i]
		}
	}
	return e.to
}

func isPureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			return false
		}
		switch u := x.X.Type().Underlying().(type) {
		case *types.Basic:
			return u.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0
		}
		return false
	case *ssa.UnOp:
		return x.Op == token.NOT || x.Op == token.XOR || (x.Op == token.SUB && !isFloat(x.X.Type()))
	case *ssa.Convert:
		a, ok1 := x.X.Type().Underlying().(*types.Basic)
		b, ok2 := x.Type().Underlying().(*types.Basic)
		return ok1 && ok2 && a.Info()&types.IsInteger != 0 && b.Info()&types.IsInteger != 0
	case *ssa.ChangeType:
		return true
	case *ssa.DebugRef:
		return true
	case *ssa.Extract:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			_, isStr := x.Call.Args[0].Type().Underlying().(*types.Basic)
			_, isSl := x.Call.Args[0].Type().Underlying().(*types.Slice)
			return isStr || isSl
		}
		if f := x.Call.StaticCallee(); f != nil && isPureFn(f, 0) {
			return true
		}
	}
	return false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

var pureMemo sync.Map

// isPureFn: loop-free function over scalars without side effects or possible panics.
func isPureFn(f *ssa.Function, depth int) bool {
	if v, ok := pureMemo.Load(f); ok {
		return v.(bool)
	}
	r := isPureFn1(f, depth)
	if depth == 0 || r {
		pureMemo.Store(f, r)
	}
	return r
}

func isPureFn1(f *ssa.Function, depth int) bool {
	if depth > 4 || len(f.Blocks) == 0 || len(f.Blocks) > 40 || len(f.FreeVars) > 0 {
		return false
	}
	if f.Signature.Results().Len() != 1 {
		return false
	}
	if !isScalar(f.Signature.Results().At(0).Type()) {
		return false
	}
	for _, p := range f.Params {
		if !isScalar(p.Type()) {
			return false
		}
	}
	if f.Recover != nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Index <= b.Index && s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi:
				continue
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || !isPureFn(g, depth+1) {
					return false
				}
				continue
			}
			if !isPureInstr(in) {
				return false
			}
		}
	}
	// acyclic check
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 || state[s] == 0 && !dfs(s) {
				return false
			}
		}
		state[b] = 2
		return true
	}
	return dfs(f.Blocks[0])
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func (c *compiler) block(b *block, sb *ssa.BasicBlock) {
	b.cost = int64(len(sb.Instrs))
	pure := true
	for _, in := range sb.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			b.nphi++
			pure = false
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			cond := c.op(in.Cond)
			n := 0
			eT := c.edgeN(sb, sb.Succs[0], 0)
			if sb.Succs[0] == sb.Succs[1] {
				n = 1
			}
			eF := c.edgeN(sb, sb.Succs[1], n)
			b.cond, b.eT, b.eF, b.isIf = cond, eT, eF, true
			b.term = func(fr *frame) *edge {
				v := cond.get(fr)
				if v.o == nil {
					if v.n != 0 {
						return eT
					}
					return eF
				}
				return symIf(fr, v.o.(*Term), eT, eF)
			}
		case *ssa.Jump:
			e := c.edge(sb, sb.Succs[0])
			b.eT = e
			b.term = func(fr *frame) *edge { return e }
		case *ssa.Return:
			pure = false
			c.ret(b, in)
		case *ssa.Panic:
			pure = false
			x := c.op(in.X)
			b.term = func(fr *frame) *edge {
				v := x.get(fr)
				fr.m.goPanicVal(v, fr.m.panicMsg(v))
				return nil
			}
		default:
			if !isPureInstr(in) {
				pure = false
			}
			if code := c.instr(in); code != nil {
				b.code = append(b.code, code)
			}
		}
	}
	if pure && len(sb.Instrs) < 40 {
		b.pureS = 1
	}
}

func (c *compiler) ret(b *block, in *ssa.Return) {
	switch len(in.Results) {
	case 0:
		b.term = func(fr *frame) *edge { fr.ret = Value{}; return nil }
	case 1:
		x := c.op(in.Results[0])
		b.term = func(fr *frame) *edge { fr.ret = x.get(fr); return nil }
	default:
		var xs []opnd
		for _, r := range in.Results {
			xs = append(xs, c.op(r))
		}
		b.term = func(fr *frame) *edge {
			t := make([]Value, len(xs))
			for i := range xs {
				t[i] = xs[i].get(fr)
			}
			fr.ret = Value{o: &Tuple{t}}
			return nil
		}
	}
}

// symIf decides a symbolic branch, first folding short-circuit chains of
// side-effect-free blocks into one condition.
func symIf(fr *frame, c *Term, eT, eF *edge) *edge {
	m := fr.m
	for i := 0; i < 64; i++ {
		if c.op == OConst {
			break
		}
		if _, ok := m.lookupKnown(c); ok {
			break
		}
		// OR chain: false edge leads to a pure block that shares our true target.
		if b := eF.to; b.pureS == 1 && len(eF.moves) == 0 && len(b.ssa.Preds) == 1 {
			if b.isIf && (b.eT.to == eT.to || b.eF.to == eT.to) {
				runPure(fr, b)
				c2 := condTerm(fr, b)
				if b.eT.to == eT.to {
					if e, ok := mergeEdges(fr, c, eT, b.eT); ok {
						nc := m.tt.Or(c, c2)
						c, eT, eF = nc, e, b.eF
						continue
					}
				} else if b.eF.to == eT.to {
					if e, ok := mergeEdges(fr, c, eT, b.eF); ok {
						nc := m.tt.Or(c, m.tt.Not(c2))
						c, eT, eF = nc, e, b.eT
						continue
					}
				}
			}
			if !b.isIf && b.eT != nil && b.eT.to == eT.to {
				// diamond
				runPure(fr, b)
				if e, ok := mergeEdges(fr, c, eT, b.eT); ok {
					return e
				}
			}
		}
		// AND chain: true edge leads to a pure block that shares our false target.
		if b := eT.to; b.pureS == 1 && len(eT.moves) == 0 && len(b.ssa.Preds) == 1 {
			if b.isIf && (b.eT.to == eF.to || b.eF.to == eF.to) {
				runPure(fr, b)
				c2 := condTerm(fr, b)
				if b.eF.to == eF.to {
					if e, ok := mergeEdges(fr, c2, b.eF, eF, c); ok {
						nc := m.tt.And(c, c2)
						c, eT, eF = nc, b.eT, e
						continue
					}
				} else if b.eT.to == eF.to {
					if e, ok := mergeEdges(fr, c2, b.eT, eF, c); ok {
						nc := m.tt.And(c, m.tt.Not(c2))
						c, eT, eF = nc, b.eF, e
						continue
					}
				}
			}
			if !b.isIf && b.eT != nil && b.eT.to == eF.to {
				runPure(fr, b)
				if e, ok := mergeEdges(fr, c, b.eT, eF); ok {
					return e
				}
			}
			// both arms pure, joining at the same block
			if b2 := eF.to; !b.isIf && b2.pureS == 1 && !b2.isIf && len(eF.moves) == 0 && len(b2.ssa.Preds) == 1 && b.eT != nil && b2.eT != nil && b.eT.to == b2.eT.to {
				runPure(fr, b)
				runPure(fr, b2)
				if e, ok := mergeEdges(fr, c, b.eT, b2.eT); ok {
					return e
				}
			}
		}
		break
	}
	if m.decide(c) {
		return eT
	}
	return eF
}

func runPure(fr *frame, b *block) {
	for _, in := range b.code {
		in(fr)
	}
}

func condTerm(fr *frame, b *block) *Term {
	return fr.m.toTerm(b.cond.get(fr), 0)
}

// mergeEdges builds an edge equal to "if c then a else b" (same target). With
// alt given, the selecting condition is alt (value of a taken when alt holds).
func mergeEdges(fr *frame, c *Term, a, b *edge, alt ...*Term) (*edge, bool) {
	if len(alt) > 0 {
		c = alt[0]
	}
	if len(a.moves) == 0 {
		return a, true
	}
	e := &edge{to: a.to}
	for i := range a.moves {
		va, vb := a.moves[i].src.get(fr), b.moves[i].src.get(fr)
		if va == vb {
			e.moves = append(e.moves, move{a.moves[i].dst, opnd{r: -1, c: va}})
			continue
		}
		ta, okA := scalarTerm(fr, a, i, va)
		tb, okB := scalarTerm(fr, b, i, vb)
		if !okA || !okB || ta.w != tb.w {
			return nil, false
		}
		v := fr.m.tt.Ite(c, ta, tb)
		rt := rtypeOf(a.to.ssa.Instrs[i].(*ssa.Phi).Type())
		e.moves = append(e.moves, move{a.moves[i].dst, opnd{r: -1, c: fr.m.termVal(v, rt)}})
	}
	return e, true
}

func scalarTerm(fr *frame, e *edge, i int, v Value) (*Term, bool) {
	rt := rtypeOf(e.to.ssa.Instrs[i].(*ssa.Phi).Type())
	switch rt.kind {
	case KBool:
		return fr.m.toTerm(v, 0), true
	case KInt:
		return fr.m.toTerm(v, rt.bits), true
	}
	return nil, false
}

// switches turns chains of "x == const" tests into jump tables.
func (c *compiler) switches() {
	type link struct {
		x   ssa.Value
		k   *ssa.Const
		b   *ssa.BasicBlock
		cmp *ssa.BinOp
	}
	get := func(b *ssa.BasicBlock, only bool) *link {
		n := len(b.Instrs)
		if n < 2 {
			return nil
		}
		iff, ok := b.Instrs[n-1].(*ssa.If)
		if !ok {
			return nil
		}
		cmp, ok := b.Instrs[n-2].(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL || iff.Cond != cmp {
			return nil
		}
		if only && n != 2 {
			return nil
		}
		k, ok := cmp.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return nil
		}
		if refs := cmp.Referrers(); refs != nil && len(*refs) != 1 {
			return nil
		}
		return &link{cmp.X, k, b, cmp}
	}
	for i, sb := range c.f.ssa.Blocks {
		l := get(sb, false)
		if l == nil {
			continue
		}
		tab := map[uint64]*edge{}
		cur := l
		var def *edge
		n := 0
		for {
			v := constValue(cur.k).n
			if _, dup := tab[v]; !dup {
				tab[v] = c.blks[cur.b.Index].eT
			}
			n++
			def = c.blks[cur.b.Index].eF
			nb := cur.b.Succs[1]
			if len(nb.Preds) != 1 {
				break
			}
			nx := get(nb, true)
			if nx == nil || nx.x != l.x {
				break
			}
			cur = nx
		}
		if n < 4 {
			continue
		}
		x := c.op(l.x)
		blk := c.blks[i]
		old := blk.term
		blk.term = func(fr *frame) *edge {
			v := x.get(fr)
			if v.o != nil {
				return old(fr)
			}
			if e, ok := tab[v.n]; ok {
				return e
			}
			return def
		}
	}
}

// ---------- execution ----------

func (m *Machine) call(f *Func, args []Value, free []Value, deferOf *frame) Value {
	if f.skip && !m.initing {
		return Value{}
	}
	if f.skip && m.fcur != nil && m.depth > 0 && f.ssa.Synthetic == "package initializer" && m.fcur.fn.ssa.Synthetic == "package initializer" {
		return Value{} // imports are initialised on demand
	}
	if f.nat != nil {
		if v, ok := f.nat(m, f, args); ok {
			return v
		}
	}
	m.ex.prog.ensure(f)
	if f.entry == nil {
		m.unsupported("%s", f.err)
	}
	if f.hit == 0 {
		atomic.StoreInt32(&f.hit, 1)
	}
	m.depth++
	if m.depth > 2000 {
		m.goPanicStr("stack overflow (call depth limit)")
	}
	base := m.sp
	need := base + f.nregs
	if need > len(m.stack) {
		n := len(m.stack) * 2
		if n < need+1024 {
			n = need + 1024
		}
		// old frames keep their slices into the old array
		m.stack = make([]Value, n)
		base = 0
		need = f.nregs
	}
	regs := m.stack[base:need:need]
	saveSp := m.sp
	m.sp = need
	copy(regs, args)
	copy(regs[len(args):], free)
	fr := &frame{m: m, regs: regs, fn: f, free: free, deferOf: deferOf, caller: m.fcur}
	m.fcur = fr
	if f.hasDefer {
		m.runDeferFrame(fr)
	} else {
		m.exec(fr, f.entry)
	}
	m.fcur = fr.caller
	m.depth--
	if saveSp <= len(m.stack) {
		m.sp = saveSp
	}
	return fr.ret
}

func (m *Machine) exec(fr *frame, b *block) {
	for {
		m.steps += b.cost
		if m.softLimit != 0 && m.steps > m.softLimit && !m.initing {
			panic(&pathEnd{kind: "softlimit"})
		}
		if m.steps > m.ex.stepLimit && !m.initing {
			panic(&pathEnd{kind: "limit", msg: fmt.Sprintf("step limit %d exceeded", m.ex.stepLimit)})
		}
		for _, in := range b.code {
			in(fr)
		}
		e := b.term(fr)
		if e == nil {
			return
		}
		b = takeEdge(fr, e)
	}
}

func (m *Machine) runDeferFrame(fr *frame) {
	sp, depth := m.sp, m.depth
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			m.sp, m.depth, m.fcur = sp, depth, fr
			fr.pan = gp
		}()
		m.exec(fr, fr.fn.entry)
	}()
	for fr.pan != nil {
		if m.runDefersProtected(fr, sp, depth) {
			continue // a new panic replaced the old one
		}
		if fr.pan != nil {
			p := fr.pan
			fr.pan = nil
			panic(p)
		}
		// recovered
		fr.ret = Value{}
		if fr.fn.recoverB != nil {
			m.exec(fr, fr.fn.recoverB)
		} else {
			fr.ret = m.zeroResults(fr.fn)
		}
	}
}

func (m *Machine) zeroResults(f *Func) Value {
	switch len(f.results) {
	case 0:
		return Value{}
	case 1:
		return m.zero(f.results[0])
	}
	t := make([]Value, len(f.results))
	for i, r := range f.results {
		t[i] = m.zero(r)
	}
	return Value{o: &Tuple{t}}
}

// runDefersProtected runs pending defers of a panicking frame; true if a defer panicked anew.
func (m *Machine) runDefersProtected(fr *frame, sp, depth int) (again bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(*goPanic)
		if !ok {
			panic(r)
		}
		m.sp, m.depth, m.fcur = sp, depth, fr
		fr.pan = gp
		again = true
	}()
	m.runDefers(fr)
	return false
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if d.bi != "" {
			m.builtinDeferred(fr, d)
			continue
		}
		m.callClosure(d.fn, d.args, fr)
	}
}

func (m *Machine) builtinDeferred(fr *frame, d deferred) {
	switch d.bi {
	case "recover":
		if fr.pan != nil {
			fr.pan = nil
		}
	case "close", "print", "println":
	default:
		m.unsupported("deferred builtin %s", d.bi)
	}
}

func (m *Machine) callClosure(c *Closure, args []Value, deferOf *frame) Value {
	if c == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(m, args)
	}
	return m.call(c.fn, args, c.free, deferOf)
}

func (m *Machine) callValue(v Value, args ...Value) Value {
	c, _ := v.o.(*Closure)
	return m.callClosure(c, args, nil)
}

// method looks up a method on a dynamic type.
func (p *Program) method(rt *RType, name string, pkg *types.Package) *Func {
	key := name
	if !token.IsExported(name) && pkg != nil {
		key = pkg.Path() + "." + name
	}
	rt.mu.Lock()
	if rt.meth == nil {
		rt.meth = map[string]*ssa.Function{}
	}
	f, ok := rt.meth[key]
	if !ok {
		sel := p.prog.MethodSets.MethodSet(rt.t).Lookup(pkg, name)
		if sel != nil {
			f = p.prog.MethodValue(sel)
		}
		rt.meth[key] = f
	}
	rt.mu.Unlock()
	if f == nil {
		return nil
	}
	return p.fn(f)
}

func (m *Machine) invoke(recv Value, name string, pkg *types.Package, args []Value) Value {
	i, _ := recv.o.(*Iface)
	if i == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	f := m.ex.prog.method(i.rt, name, pkg)
	if f == nil {
		m.unsupported("method %s on %s", name, i.rt)
	}
	a := make([]Value, 0, len(args)+1)
	a = append(a, i.v)
	a = append(a, args...)
	return m.call(f, a, nil, nil)
}

func (p *Program) implements(rt *RType, it *RType) bool {
	k := [2]int{rt.id, it.id}
	p.implMu.RLock()
	v, ok := p.impl[k]
	p.implMu.RUnlock()
	if ok {
		return v
	}
	v = types.Implements(rt.t, it.t.Underlying().(*types.Interface))
	p.implMu.Lock()
	p.impl[k] = v
	p.implMu.Unlock()
	return v
}

func (m *Machine) nilDeref() {
	m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
}

func (m *Machine) cell(v Value) *Value {
	p, ok := v.o.(*Value)
	if !ok {
		if v.o == nil {
			m.nilDeref()
		}
		m.unsupported("dereference of %T", v.o)
	}
	return p
}

func (m *Machine) panicMsg(v Value) string {
	i, _ := v.o.(*Iface)
	if i == nil {
		return "nil"
	}
	if i.rt.kind == KString && !i.rt.named {
		return strOf(i.v).show()
	}
	var out string
	func() {
		defer func() {
			if r := recover(); r != nil {
				out = i.rt.String()
			}
		}()
		out = m.fmtValue(i, 'v', fmtFlags{}).show()
	}()
	return out
}

var _ = math.Pi
