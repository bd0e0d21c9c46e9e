package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Result of a satisfiability query.
type Sat int

const (
	Unsat Sat = iota
	SatYes
	SatUnknown
)

type varAssign struct {
	idx int
	val uint64
}

type cacheEnt struct {
	res   Sat
	model []varAssign
}

type cacheKey struct{ a, b uint64 }

const cacheShards = 64

// QueryCache is shared by all workers; keys are structural hashes of the constraint set.
type QueryCache struct {
	mu [cacheShards]sync.Mutex
	m  [cacheShards]map[cacheKey]cacheEnt
}

func NewQueryCache() *QueryCache {
	q := &QueryCache{}
	for i := range q.m {
		q.m[i] = map[cacheKey]cacheEnt{}
	}
	return q
}

func (q *QueryCache) get(k cacheKey) (cacheEnt, bool) {
	s := k.a % cacheShards
	q.mu[s].Lock()
	e, ok := q.m[s][k]
	q.mu[s].Unlock()
	return e, ok
}
func (q *QueryCache) put(k cacheKey, e cacheEnt) {
	s := k.a % cacheShards
	q.mu[s].Lock()
	q.m[s][k] = e
	q.mu[s].Unlock()
}

// Stats over all workers (atomics).
type SolverStats struct {
	queries, cached, sat, unsat, unknown int64
	nanos                                int64
	maxNanos                             int64
}

var stats SolverStats

var solverSession int32

// Solver wraps one z3 process.
type Solver struct {
	path    string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	session int32
	timeout int // ms
	sent    int // bytes of definitions
	dump    io.Writer
}

// maxSent is how many bytes of definitions a process gets: many slow it down.
const maxSent = 40000

func NewSolver(path string, timeoutMs int) *Solver { return &Solver{path: path, timeout: timeoutMs} }

func (s *Solver) start() error {
	args := []string{"-in", "-smt2"}
	if strings.Contains(s.path, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=" + strconv.Itoa(s.timeout)}
	}
	s.cmd = exec.Command(s.path, args...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	so, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.out = bufio.NewReader(so)
	s.session = atomic.AddInt32(&solverSession, 1)
	s.sent = 0
	pre := "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n"
	if !strings.Contains(s.path, "cvc5") {
		pre += fmt.Sprintf("(set-option :timeout %d)\n", s.timeout)
	} else {
		pre += "(set-logic QF_BV)\n"
	}
	_, err = io.WriteString(s.in, pre)
	return err
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction of cs. On sat returns values of all variables occurring in cs.
func (s *Solver) Check(cs []*Term) (Sat, []varAssign, error) {
	if s.sent > maxSent {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return SatUnknown, nil, err
		}
	}
	var sb strings.Builder
	for _, c := range cs {
		c.emit(&sb, s.session)
	}
	s.sent += sb.Len()
	sb.WriteString("(push 1)\n")
	seen := map[*Term]bool{}
	var vars []*Term
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
		c.collectVars(seen, &vars)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].k < vars[j].k })
	sb.WriteString("(check-sat)\n")
	t0 := time.Now()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return SatUnknown, nil, err
	}
	line, err := s.readLine()
	if err != nil {
		s.Close()
		return SatUnknown, nil, err
	}
	res := SatUnknown
	switch line {
	case "sat":
		res = SatYes
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		s.Close()
		return SatUnknown, nil, fmt.Errorf("solver said: %s", line)
	}
	var model []varAssign
	if res == SatYes && len(vars) > 0 {
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range vars {
			q.WriteString(v.ref())
			q.WriteByte(' ')
		}
		q.WriteString("))\n")
		io.WriteString(s.in, q.String())
		txt, err := s.readSexp()
		if err != nil {
			s.Close()
			return SatUnknown, nil, err
		}
		vals, err := parseValues(txt)
		if err != nil || len(vals) != len(vars) {
			return SatUnknown, nil, fmt.Errorf("bad model: %s", txt)
		}
		for i, v := range vars {
			model = append(model, varAssign{int(v.k), vals[i]})
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	d := int64(time.Since(t0))
	atomic.AddInt64(&stats.nanos, d)
	for {
		o := atomic.LoadInt64(&stats.maxNanos)
		if d <= o || atomic.CompareAndSwapInt64(&stats.maxNanos, o, d) {
			break
		}
	}
	return res, model, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if l = strings.TrimSpace(l); l != "" || err != nil {
			return l, err
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	t := sb.String()
	if strings.HasPrefix(strings.TrimSpace(t), "(error") {
		return "", fmt.Errorf("solver: %s", t)
	}
	return t, nil
}

// parseValues reads ((name value) (name value) ...).
func parseValues(t string) ([]uint64, error) {
	var vals []uint64
	t = strings.TrimSpace(t)
	i := 0
	tok := func() string {
		for i < len(t) && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r') {
			i++
		}
		if i >= len(t) {
			return ""
		}
		if t[i] == '(' || t[i] == ')' {
			i++
			return t[i-1 : i]
		}
		j := i
		for i < len(t) && !strings.ContainsRune(" \n\t\r()", rune(t[i])) {
			i++
		}
		return t[j:i]
	}
	if tok() != "(" {
		return nil, fmt.Errorf("syntax")
	}
	for {
		x := tok()
		if x == ")" || x == "" {
			return vals, nil
		}
		tok() // name
		v := tok()
		switch {
		case v == "true":
			vals = append(vals, 1)
		case v == "false":
			vals = append(vals, 0)
		case strings.HasPrefix(v, "#x"):
			n, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			vals = append(vals, n)
		case strings.HasPrefix(v, "#b"):
			n, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			vals = append(vals, n)
		case v == "(":
			if tok() != "_" {
				return nil, fmt.Errorf("syntax")
			}
			n, err := strconv.ParseUint(strings.TrimPrefix(tok(), "bv"), 10, 64)
			if err != nil {
				return nil, err
			}
			vals = append(vals, n)
			tok()
			tok()
		default:
			return nil, fmt.Errorf("value %q", v)
		}
		tok() // )
	}
}
