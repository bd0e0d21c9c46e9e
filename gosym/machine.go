package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Machine executes one path at a time.
type Machine struct {
	ex  *Explorer
	id  int
	tt  *TermTab
	sol *Solver

	// memory
	arena   Arena
	oldLo   uintptr
	oldHi   uintptr
	initing bool
	bump    []Value
	journal []jent
	mapLog  []jmap
	globals []*Value
	inited  map[*ssa.Package]bool

	stack []Value
	sp    int
	depth int
	steps int64

	// path state
	prefix  []uint16
	pos     int
	trail   []uint16
	model   []uint64
	pc      []*Term
	known   map[*Term]bool
	nvars   int
	widths  []uint8
	inputs  []inputRec
	covers  map[string]bool
	observe []*Str
	stdout  []*Str
	files   map[string]*Str
	mapNondet bool
	kf      []string
	incomplete string
	fcur    *frame
	lastPos string
	nforks  int
	pending []*workItem
	kv      map[string]Value
	chk     int
	tags    []string
	curMsg  *Str
	softLimit int64
}

type inputRec struct {
	idx int
	w   uint8
	lab string
}

type pathEnd struct {
	kind string // "assume", "violation", "unsupported", "limit", "needinit", "exit"
	msg  string
	pkg  *ssa.Package
	code int
}

type goPanic struct {
	val       Value // interface value
	recovered bool
	msg       string
	where     string
}

func (m *Machine) unsupported(f string, a ...any) {
	panic(&pathEnd{kind: "unsupported", msg: fmt.Sprintf(f, a...)})
}

func (m *Machine) goPanicVal(v Value, msg string) {
	panic(&goPanic{val: v, msg: msg, where: m.where()})
}

func (m *Machine) where() string {
	var out []string
	for f := m.fcur; f != nil && len(out) < 12; f = f.caller {
		out = append(out, f.fn.name)
	}
	return strings.Join(out, " < ")
}

func (m *Machine) goPanicStr(msg string) {
	// a runtime.Error value
	var v Value
	if rtErr := m.ex.prog.runtimeErr; rtErr != nil {
		v = Value{o: &Iface{rt: rtErr, v: mkStr(strings.TrimPrefix(msg, "runtime error: "))}}
	} else {
		v = Value{o: &Iface{rt: m.ex.prog.rtString, v: mkStr(msg)}}
	}
	m.goPanicVal(v, msg)
}

// ---------- symbolic decisions ----------

func (m *Machine) newVar(w uint8, lab string) (*Term, int) {
	idx := m.nvars
	m.nvars++
	for len(m.model) <= idx {
		m.model = append(m.model, 0)
	}
	m.inputs = append(m.inputs, inputRec{idx, w, lab})
	return m.tt.Var(idx, w), idx
}

func (m *Machine) learn(c *Term, v bool) {
	if c.op == OConst {
		return
	}
	if c.op == ONot {
		m.learn(c.a, !v)
		return
	}
	if _, ok := m.known[c]; ok {
		return
	}
	m.known[c] = v
	if v && c.op == OAnd || !v && c.op == OOr {
		m.learn(c.a, v)
		m.learn(c.b, v)
	}
}

func (m *Machine) assertPC(c *Term, v bool) {
	t := c
	if !v {
		t = m.tt.Not(c)
	}
	if t.op == OConst {
		return
	}
	m.splitAnd(t)
	m.learn(c, v)
}

func (m *Machine) splitAnd(t *Term) {
	if t.op == OAnd {
		m.splitAnd(t.a)
		m.splitAnd(t.b)
		return
	}
	if t.op == ONot && t.a.op == OOr {
		m.splitAnd(m.tt.Not(t.a.a))
		m.splitAnd(m.tt.Not(t.a.b))
		return
	}
	if t.op == OConst {
		return
	}
	m.pc = append(m.pc, t)
}

func (m *Machine) lookupKnown(c *Term) (bool, bool) {
	if v, ok := m.known[c]; ok {
		return v, true
	}
	switch c.op {
	case ONot:
		v, ok := m.lookupKnown(c.a)
		return !v, ok
	case OAnd:
		v1, ok1 := m.lookupKnown(c.a)
		if ok1 && !v1 {
			return false, true
		}
		v2, ok2 := m.lookupKnown(c.b)
		if ok2 && !v2 {
			return false, true
		}
		if ok1 && ok2 {
			return true, true
		}
	case OOr:
		v1, ok1 := m.lookupKnown(c.a)
		if ok1 && v1 {
			return true, true
		}
		v2, ok2 := m.lookupKnown(c.b)
		if ok2 && v2 {
			return true, true
		}
		if ok1 && ok2 {
			return false, true
		}
	}
	return false, false
}

// decide branches on a symbolic condition.
func (m *Machine) decide(c *Term) bool {
	if c.op == OConst {
		return c.k != 0
	}
	if m.initing {
		panic("symbolic branch in init")
	}
	if c.op == ONot {
		return !m.decide(c.a)
	}
	if v, ok := m.lookupKnown(c); ok {
		return v
	}
	if m.pos < len(m.prefix) {
		e := m.prefix[m.pos]
		m.pos++
		m.trail = append(m.trail, e)
		b := e&1 != 0
		if e&2 != 0 { // forced
			m.learn(c, b)
		} else {
			m.assertPC(c, b)
		}
		return b
	}
	v := m.tt.Eval(c, m.model) != 0
	other := c
	if v {
		other = m.tt.Not(c)
	}
	res, alt := m.query(other)
	e := uint16(0)
	if v {
		e = 1
	}
	switch res {
	case Unsat:
		m.trail = append(m.trail, e|2)
		m.pos++
		m.prefix = m.trail
		m.learn(c, v)
		return v
	case SatUnknown:
		m.incomplete = "solver returned unknown"
		m.ex.noteIncomplete("solver unknown on a branch")
		m.trail = append(m.trail, e)
		m.pos++
		m.prefix = m.trail
		m.assertPC(c, v)
		return v
	}
	m.fork(e^1, alt)
	m.trail = append(m.trail, e)
	m.pos++
	m.prefix = m.trail
	m.assertPC(c, v)
	return v
}

func (m *Machine) fork(e uint16, model []uint64) {
	m.nforks++
	p := make([]uint16, len(m.trail)+1)
	copy(p, m.trail)
	p[len(m.trail)] = e
	if forkProfile {
		m.ex.noteFork(m.where())
	}
	m.pending = append(m.pending, &workItem{prefix: p, model: model})
}

var forkProfile bool

// choice forks n ways on a fresh variable.
func (m *Machine) choice(n int, lab string) int {
	if n <= 0 {
		m.unsupported("choice(%d)", n)
	}
	_, idx := m.newVar(16, lab)
	if m.pos < len(m.prefix) {
		e := int(m.prefix[m.pos])
		m.pos++
		m.trail = append(m.trail, uint16(e))
		m.model[idx] = uint64(e)
		return e
	}
	for k := n - 1; k >= 1; k-- {
		mod := append([]uint64(nil), m.model...)
		mod[idx] = uint64(k)
		m.fork(uint16(k), mod)
	}
	m.trail = append(m.trail, 0)
	m.pos++
	m.prefix = m.trail
	m.model[idx] = 0
	return 0
}

// query decides pc ∧ c; on sat returns a full model.
func (m *Machine) query(c *Term) (Sat, []uint64) {
	if c.op == OConst {
		if c.k == 0 {
			return Unsat, nil
		}
		return SatYes, append([]uint64(nil), m.model...)
	}
	// independence slice
	set := append([]uint64(nil), c.vars()...)
	used := make([]bool, len(m.pc))
	cs := make([]*Term, 0, 16)
	for changed := true; changed; {
		changed = false
		for i, p := range m.pc {
			if used[i] {
				continue
			}
			v := p.vars()
			hit := false
			for j := 0; j < len(v) && j < len(set); j++ {
				if v[j]&set[j] != 0 {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			changed = true
			cs = append(cs, p)
			for len(set) < len(v) {
				set = append(set, 0)
			}
			for j := range v {
				set[j] |= v[j]
			}
		}
	}
	sort.Slice(cs, func(i, j int) bool {
		if cs[i].h1 != cs[j].h1 {
			return cs[i].h1 < cs[j].h1
		}
		return cs[i].h2 < cs[j].h2
	})
	k := cacheKey{c.h1, c.h2}
	var prev *Term
	for _, p := range cs {
		if p == prev {
			continue
		}
		prev = p
		k.a = mix(k.a, p.h1)
		k.b = mix(k.b, p.h2)
	}
	atomic.AddInt64(&stats.queries, 1)
	ent, ok := m.ex.cache.get(k)
	if ok {
		atomic.AddInt64(&stats.cached, 1)
	} else {
		cs = append(cs, c)
		res, mod, err := m.sol.Check(cs)
		if err != nil {
			fmt.Fprintln(os.Stderr, "gosym: solver error:", err)
			m.sol.Close()
			res = SatUnknown
		}
		ent = cacheEnt{res, mod}
		switch res {
		case SatYes:
			atomic.AddInt64(&stats.sat, 1)
		case Unsat:
			atomic.AddInt64(&stats.unsat, 1)
		default:
			atomic.AddInt64(&stats.unknown, 1)
		}
		if res != SatUnknown {
			m.ex.cache.put(k, ent)
		}
	}
	if ent.res != SatYes {
		return ent.res, nil
	}
	out := append([]uint64(nil), m.model...)
	for _, a := range ent.model {
		for len(out) <= a.idx {
			out = append(out, 0)
		}
		out[a.idx] = a.val
	}
	return SatYes, out
}

// assume restricts the path.
func (m *Machine) assume(c *Term) {
	if c.op == OConst {
		if c.k == 0 {
			panic(&pathEnd{kind: "assume"})
		}
		return
	}
	if v, ok := m.lookupKnown(c); ok {
		if !v {
			panic(&pathEnd{kind: "assume"})
		}
		return
	}
	if m.pos < len(m.prefix) {
		// the item's model satisfies every assumption made before its fork
		m.assertPC(c, true)
		return
	}
	if m.tt.Eval(c, m.model) == 0 {
		res, mod := m.query(c)
		switch res {
		case Unsat:
			panic(&pathEnd{kind: "assume"})
		case SatUnknown:
			m.ex.noteIncomplete("solver unknown on an assumption")
			panic(&pathEnd{kind: "assume"})
		}
		m.model = mod
	}
	m.assertPC(c, true)
}

// assert discharges an assertion on the current path.
func (m *Machine) assertTerm(c *Term, msg string) {
	atomic.AddInt64(&m.ex.asserts, 1)
	if c.op == OConst {
		if c.k == 0 {
			panic(&pathEnd{kind: "violation", msg: msg})
		}
		return
	}
	if v, ok := m.lookupKnown(c); ok {
		if !v {
			panic(&pathEnd{kind: "violation", msg: msg})
		}
		return
	}
	if m.pos < len(m.prefix) {
		// A path whose prefix extends past this point: the assertion was already
		// checked by the path that created the fork.
		m.assertPC(c, true)
		return
	}
	res, mod := m.query(m.tt.Not(c))
	switch res {
	case SatYes:
		if sig := m.sig(msg); m.ex.isKnown(sig) && !keepGoing {
			// record the listed finding, then go on with the values that satisfy the assertion
			save := m.model
			m.model = mod
			m.ex.recordKnown(m, sig, msg)
			m.model = save
			m.assumeNow(c)
			return
		}
		m.model = mod
		panic(&pathEnd{kind: "violation", msg: msg})
	case SatUnknown:
		m.ex.noteIncomplete("solver unknown on assertion: " + msg)
	}
	// record the fact (implied)
	m.assertPC(c, true)
}

func (m *Machine) assumeNow(c *Term) {
	if m.tt.Eval(c, m.model) == 0 {
		res, mod := m.query(c)
		if res != SatYes {
			panic(&pathEnd{kind: "known"})
		}
		m.model = mod
	}
	m.assertPC(c, true)
}

// concretize forces a symbolic integer to a constant, forking over its values.
func (m *Machine) concretize(t *Term) uint64 {
	return m.concretizeBy(t, func(v uint64) *Term { return m.tt.Eq(t, m.tt.Const(t.w, v)) })
}

// concretizeBy is a value of t or one that class puts with it.
func (m *Machine) concretizeBy(t *Term, class func(uint64) *Term) uint64 {
	for n := 0; ; n++ {
		if t.op == OConst {
			return t.k
		}
		if n > 4096 {
			m.unsupported("concretization of a wide value")
		}
		if m.pos < len(m.prefix) {
			// value was chosen by model at recording time; recorded as 4 entries
			v := uint64(0)
			for i := 0; i < 4; i++ {
				v |= uint64(m.prefix[m.pos+i]) << (16 * i)
				m.trail = append(m.trail, m.prefix[m.pos+i])
			}
			m.pos += 4
			if m.decide(class(v)) {
				return v
			}
			continue
		}
		v := m.tt.Eval(t, m.model)
		for i := 0; i < 4; i++ {
			m.trail = append(m.trail, uint16(v>>(16*i)))
		}
		m.pos += 4
		m.prefix = m.trail
		if m.decide(class(v)) {
			return v
		}
	}
}

func (m *Machine) concInt(v Value, r *RType) int64 {
	t, ok := v.o.(*Term)
	if !ok {
		return int64(v.n)
	}
	n := m.concretize(t)
	return int64(canon(n, r.bits, r.signed))
}

// concStr forces a string to be concrete.
func (m *Machine) concStr(s *Str) string {
	if s.sym == nil {
		return s.s
	}
	b := make([]byte, len(s.sym))
	for i, t := range s.sym {
		b[i] = byte(m.concretize(t))
	}
	return string(b)
}

// ---------- path lifecycle ----------

type pathResult struct {
	kind   string
	msg    string
	where  string
	model  []uint64
	steps  int64
	inputs []uint64
	labels []string
	obs    []string
	sig    string
}

func (m *Machine) undo() {
	for i := len(m.journal) - 1; i >= 0; i-- {
		*m.journal[i].p = m.journal[i].v
	}
	m.journal = m.journal[:0]
	for i := len(m.mapLog) - 1; i >= 0; i-- {
		e := m.mapLog[i]
		*e.m = e.old
	}
	m.mapLog = m.mapLog[:0]
}

func (m *Machine) resetPath(it *workItem) {
	m.undo()
	m.prefix = it.prefix
	m.pos = 0
	m.trail = m.trail[:0:0]
	m.model = append(m.model[:0:0], it.model...)
	m.pc = m.pc[:0]
	m.known = map[*Term]bool{}
	m.nvars = 0
	m.inputs = m.inputs[:0]
	m.covers = map[string]bool{}
	m.observe = nil
	m.stdout = nil
	m.files = map[string]*Str{}
	m.mapNondet = false
	m.incomplete = ""
	m.sp = 0
	m.depth = 0
	m.steps = 0
	m.fcur = nil
	m.bump = nil
	m.nforks = 0
	m.kf = nil
	m.kv = nil
	m.chk = 0
	m.tags = nil
	m.curMsg = nil
	m.softLimit = 0
}

func (m *Machine) runPath(fn *Func, it *workItem) (res pathResult) {
	for try := 0; ; try++ {
		m.resetPath(it)
		need := m.runOnce(fn, &res)
		if need == nil {
			break
		}
		m.undo()
		m.initPackage(need)
		if try > 500 {
			panic("init loop")
		}
	}
	m.fill(&res)
	return
}

func (m *Machine) fill(res *pathResult) {
	res.model = m.model
	res.steps = m.steps
	for _, in := range m.inputs {
		v := uint64(0)
		if in.idx < len(m.model) {
			v = m.model[in.idx] & mask1(in.w)
		}
		res.inputs = append(res.inputs, v)
		res.labels = append(res.labels, in.lab)
	}
	for _, s := range m.observe {
		res.obs = append(res.obs, m.evalStr(s))
	}
}

func (m *Machine) evalStr(s *Str) string {
	if s.sym == nil {
		return s.s
	}
	b := make([]byte, len(s.sym))
	for i, t := range s.sym {
		b[i] = byte(m.tt.Eval(t, m.model))
	}
	return string(b)
}

func (m *Machine) runOnce(fn *Func, res *pathResult) (need *ssa.Package) {
	*res = pathResult{kind: "ok"}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch e := r.(type) {
		case *pathEnd:
			if e.kind == "needinit" {
				// forks made so far are dropped: the path is re-executed
				m.pending = m.pending[:0]
				need = e.pkg
				return
			}
			res.kind, res.msg = e.kind, e.msg
			res.where = m.where()
			if e.kind == "exit" {
				res.kind = "violation"
				res.msg = fmt.Sprintf("uncaught os.Exit(%d) %s", e.code, e.msg)
			}
		case *goPanic:
			res.kind = "violation"
			res.msg = "uncaught panic: " + e.msg
			res.where = e.where
		default:
			res.kind = "unsupported"
			res.msg = fmt.Sprintf("engine: %v at %s", r, m.where())
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", res.msg, debug.Stack())
			}
		}
	}()
	m.call(fn, nil, nil, nil)
	return nil
}

func (m *Machine) initPackage(p *ssa.Package) {
	if m.inited[p] {
		return
	}
	m.inited[p] = true
	saveFc, saveDepth, saveIniting, saveSteps := m.fcur, m.depth, m.initing, m.steps
	m.initing = true
	defer func() {
		m.fcur, m.depth, m.initing, m.steps = saveFc, saveDepth, saveIniting, saveSteps
		m.recomputeOld()
		if r := recover(); r != nil {
			msg := ""
			switch e := r.(type) {
			case *pathEnd:
				msg = e.kind + ": " + e.msg
			case *goPanic:
				msg = "panic: " + e.msg + " at " + e.where
			default:
				msg = fmt.Sprint(r)
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%s\n%s\n", msg, debug.Stack())
				}
			}
			m.ex.noteInit(p.Pkg.Path(), msg)
		}
	}()
	if f := p.Func("init"); f != nil {
		m.call(m.ex.prog.fn(f), nil, nil, nil)
	}
}

func (m *Machine) recomputeOld() {
	m.oldLo, m.oldHi = ^uintptr(0), 0
	for _, c := range m.arena.chunks {
		if c.lo < m.oldLo {
			m.oldLo = c.lo
		}
		if c.hi > m.oldHi {
			m.oldHi = c.hi
		}
	}
	_ = unsafe.Pointer(nil)
}

func (m *Machine) gcell(g int) *Value {
	c := m.globals[g]
	if c == nil {
		gi := m.ex.prog.globals[g]
		if !m.inited[gi.pkg] && !gi.guard {
			if m.initing {
				m.initPackage(gi.pkg)
				if m.globals[g] != nil {
					return m.globals[g]
				}
			} else {
				panic(&pathEnd{kind: "needinit", pkg: gi.pkg})
			}
		}
		ini := m.initing
		m.initing = true
		cs := m.arena.alloc(1)
		c = &cs[0]
		*c = m.zero(gi.rt)
		m.globals[g] = c
		m.initing = ini
		m.recomputeOld()
	}
	return c
}

var startTime = time.Now()
