package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []uint16
	model  []uint64
}

// Explorer explores all paths of one harness.
type Explorer struct {
	prog      *Program
	cache     *QueryCache
	stepLimit int64
	asserts   int64

	name     string
	fn       *Func
	known    map[string]string // signature -> known-finding text
	deadline time.Time
	rng      *rand.Rand

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*workItem
	active   int
	stop     bool
	timedOut bool

	paths      int64
	okPaths    int64
	assumed    int64
	steps      int64
	decisions  int64
	covers     map[string]int64
	incompl    map[string]int64
	unsup      map[string]int64
	initNotes  map[string]string
	forks      map[string]int64
	violations []pathResult
	knownHit   map[string]pathResult
	knownCnt   map[string]int64
	samples    []pathResult
	fallback   []pathResult
	nsample    int64
	elapsed    time.Duration
	onViol     func(r pathResult) bool // true: confirmed, stop
	spurious   []string
	confirmed  []pathResult
	notesSeen  map[string]bool
}

func (ex *Explorer) noteIncomplete(s string) {
	ex.mu.Lock()
	ex.incompl[s]++
	ex.mu.Unlock()
}
func (ex *Explorer) noteInit(p, s string) {
	ex.mu.Lock()
	ex.initNotes[p] = s
	ex.mu.Unlock()
}
func (ex *Explorer) noteFork(s string) {
	ex.mu.Lock()
	ex.forks[s]++
	ex.mu.Unlock()
}

func (m *Machine) sig(msg string) string {
	s := m.ex.name
	for _, t := range m.tags {
		s += "|" + t
	}
	return s + "|" + msg
}

func (ex *Explorer) isKnown(sig string) bool {
	_, ok := ex.known[sig]
	return ok
}

func (ex *Explorer) push(items []*workItem) {
	if len(items) == 0 {
		return
	}
	ex.mu.Lock()
	ex.queue = append(ex.queue, items...)
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func (ex *Explorer) pop() *workItem {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return nil
		}
		if time.Now().After(ex.deadline) {
			if len(ex.queue) > 0 || ex.active > 0 {
				ex.timedOut = true
			}
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		if n := len(ex.queue); n > 0 {
			k := n - 1
			if n > 1 && ex.rng.Intn(2) == 0 {
				k = ex.rng.Intn(n)
			}
			it := ex.queue[k]
			ex.queue[k] = ex.queue[n-1]
			ex.queue[n-1] = nil
			ex.queue = ex.queue[:n-1]
			ex.active++
			return it
		}
		if ex.active == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func newExplorer(p *Program, cache *QueryCache, name string, fn *Func, known map[string]string, seed int64) *Explorer {
	ex := &Explorer{prog: p, cache: cache, name: name, fn: fn, known: known, rng: rand.New(rand.NewSource(seed)),
		covers: map[string]int64{}, incompl: map[string]int64{}, unsup: map[string]int64{}, initNotes: map[string]string{},
		forks: map[string]int64{}, knownHit: map[string]pathResult{}, knownCnt: map[string]int64{}, stepLimit: 40_000_000, notesSeen: map[string]bool{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue = []*workItem{{}}
	return ex
}

func newMachine(id int, solver string) *Machine {
	m := &Machine{id: id, tt: NewTermTab(), sol: NewSolver(solver, 10000), globals: make([]*Value, maxGlobals), inited: map[*ssa.Package]bool{}}
	m.stack = make([]Value, 1<<16)
	m.known = map[*Term]bool{}
	m.recomputeOld()
	return m
}

// explore runs until the work or the time is exhausted.
func (ex *Explorer) explore(ms []*Machine, deadline time.Time) {
	t0 := time.Now()
	ex.mu.Lock()
	ex.deadline = deadline
	ex.stop = false
	ex.timedOut = false
	ex.mu.Unlock()
	tick := time.AfterFunc(time.Until(deadline), func() { ex.cond.Broadcast() })
	defer tick.Stop()
	var wg sync.WaitGroup
	for _, m := range ms {
		m := m
		if m.ex != ex {
			m.sol.Close() // a fresh process: old definitions slow it down
		}
		m.ex = ex
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex.worker(m)
		}()
	}
	wg.Wait()
	ex.elapsed += time.Since(t0)
}

func (ex *Explorer) worker(m *Machine) {
	for {
		it := ex.pop()
		if it == nil {
			return
		}
		m.pending = m.pending[:0]
		res := m.runPath(ex.fn, it)
		pend := append([]*workItem(nil), m.pending...)
		m.pending = m.pending[:0]
		ex.push(pend)
		ex.record(m, res)
		m.undo()
		if len(m.tt.m) > 1_500_000 {
			m.tt = NewTermTab()
			m.sol.Close()
			m.known = map[*Term]bool{}
			m.pc = nil
		}
		ex.done()
	}
}

func (ex *Explorer) record(m *Machine, r pathResult) {
	atomic.AddInt64(&ex.paths, 1)
	atomic.AddInt64(&ex.steps, r.steps)
	ex.mu.Lock()
	ex.decisions += int64(len(m.trail))
	switch r.kind {
	case "ok":
		ex.okPaths++
		for c := range m.covers {
			ex.covers[c]++
		}
		if m.chk > 0 {
			ex.nsample++
			if len(ex.samples) < maxSamples {
				ex.samples = append(ex.samples, r)
			} else if k := ex.rng.Int63n(ex.nsample); k < maxSamples {
				ex.samples[k] = r
			}
		}
	case "assume":
		ex.assumed++
	case "known":
	case "unsupported", "limit", "softlimit":
		ex.unsup[r.kind+": "+r.msg+" at "+r.where]++
		if len(ex.fallback) < 40 {
			ex.fallback = append(ex.fallback, r)
		}
	case "violation":
		sig := m.sig(r.msg)
		r.sig = sig
		if ex.isKnown(sig) {
			ex.knownCnt[sig]++
			if _, ok := ex.knownHit[sig]; !ok {
				ex.knownHit[sig] = r
			}
			break
		}
		if ex.notesSeen[sig] && !keepGoing {
			break
		}
		ex.notesSeen[sig] = true
		if keepGoing {
			ex.violations = append(ex.violations, r)
			break
		}
		ex.mu.Unlock()
		stop := ex.onViol(r)
		ex.mu.Lock()
		if stop {
			ex.confirmed = append(ex.confirmed, r)
			ex.stop = true
		} else {
			ex.spurious = append(ex.spurious, sig)
		}
	}
	ex.mu.Unlock()
}

func (ex *Explorer) recordKnown(m *Machine, sig, msg string) {
	r := pathResult{kind: "violation", msg: msg, sig: sig}
	m.fill(&r)
	ex.mu.Lock()
	ex.knownCnt[sig]++
	if _, ok := ex.knownHit[sig]; !ok {
		ex.knownHit[sig] = r
	}
	ex.mu.Unlock()
}

const maxSamples = 12

var keepGoing bool

// ---- native replay ----

type Native struct {
	once sync.Once
	b    *Build
	hs   map[string]*ssa.Function
	bin  string
	err  error
	mu   sync.Mutex
	n    int
	took time.Duration
}

type njob struct {
	H   string
	In  []uint64
	Rep int
}
type nres struct {
	Kind string
	Msg  string
	Obs  []string
	N    bool
}

func (n *Native) ready() error {
	n.once.Do(func() {
		t := time.Now()
		n.bin, n.err = n.b.BuildNative(n.hs)
		n.took = time.Since(t)
	})
	return n.err
}

func (n *Native) run(jobs []njob, timeout time.Duration) ([]nres, error) {
	if err := n.ready(); err != nil {
		return nil, err
	}
	n.mu.Lock()
	n.n++
	f := filepath.Join(n.b.work, fmt.Sprintf("jobs%d.json", n.n))
	n.mu.Unlock()
	js, _ := json.Marshal(jobs)
	if err := os.WriteFile(f, js, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command(n.bin, f)
	cmd.Dir = n.b.work
	cmd.Env = append(os.Environ(), "TMPDIR="+n.b.work)
	var out strings.Builder
	cmd.Stdout = &out
	if debugDump {
		cmd.Stderr = os.Stderr
		cmd.Env = append(cmd.Env, "SYM_DUMP=1")
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	var res []nres
	dec := json.NewDecoder(strings.NewReader(out.String()))
	for {
		var r nres
		if dec.Decode(&r) != nil {
			break
		}
		res = append(res, r)
	}
	for len(res) < len(jobs) {
		k := "crash"
		res = append(res, nres{Kind: k, Msg: fmt.Sprint(err)})
	}
	return res, nil
}

func (r *pathResult) replayInputs() []uint64 {
	in := []uint64{}
	for i, v := range r.inputs {
		if r.labels[i] != "maporder" {
			in = append(in, v)
		}
	}
	return in
}

func topN(m map[string]int64, n int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if m[ks[i]] != m[ks[j]] {
			return m[ks[i]] > m[ks[j]]
		}
		return ks[i] < ks[j]
	})
	if len(ks) > n {
		ks = ks[:n]
	}
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%d x %s", m[k], k)
	}
	return ks
}
