// Package sym is the harness API. Under the symbolic engine every function here
// is intercepted; this native implementation replays recorded input values.
package sym

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"
	"unsafe"
)

type violation struct{ msg string }
type assumed struct{}
type exhausted struct{}
type exitCall struct{ code int }

var (
	inputs []uint64
	pos    int
	obs    []string
	stdout *os.File
	outOff int64
	tmpDir string
	nfile  int
	nondet bool
)

func next() uint64 {
	if pos >= len(inputs) {
		panic(exhausted{})
	}
	v := inputs[pos]
	pos++
	return v
}

// Byte is an arbitrary byte.
func Byte() byte { return byte(next()) }

// ByteRange is an arbitrary byte in lo..hi.
func ByteRange(lo, hi byte) byte {
	if lo == hi {
		return lo
	}
	v := byte(next())
	if v < lo || v > hi {
		panic(assumed{})
	}
	return v
}

// ByteIn is an arbitrary byte of a concrete set.
func ByteIn(set string) byte {
	if len(set) == 1 {
		return set[0]
	}
	v := byte(next())
	if strings.IndexByte(set, v) < 0 {
		panic(assumed{})
	}
	return v
}

// Bool is an arbitrary truth value.
func Bool() bool { return next()&1 != 0 }

// Uint64 is an arbitrary 64-bit word.
func Uint64() uint64 { return next() }

// Int is an arbitrary integer in lo..hi.
func Int(lo, hi int) int {
	if lo == hi {
		return lo
	}
	v := int(int64(next()))
	if v < lo || v > hi {
		panic(assumed{})
	}
	return v
}

// Choice is an arbitrary integer in 0..n-1, explored by forking.
func Choice(n int) int {
	if n == 1 {
		return 0
	}
	return int(next())
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumed{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(violation{msg})
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { panic(violation{msg}) }

// Cover marks a reachability witness: the check requires some path to reach it.
func Cover(label string) {}

// Tag adds a component to the signature of any violation on this path.
func Tag(label string) {}

// Observe records a value compared between engine and native replay.
func Observe(s string) { obs = append(obs, s) }

// And, Or, Not combine conditions without branching.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }

// Contains is strings.Contains as a single condition.
func Contains(s, sub string) bool { return strings.Contains(s, sub) }

// Concretize forks until s is a constant.
func Concretize(s string) string { return s }

// Symbolic tells whether the engine runs the harness.
func Symbolic() bool { return false }

// MapOrder makes map iteration order arbitrary (natively it always is).
func MapOrder(on bool) {
	if on {
		nondet = true
	}
}

// Field is a field, exported or not, of the structure x points to; nil when there is
// none of this name.
func Field(x interface{}, name string) interface{} {
	v := reflect.ValueOf(x).Elem().FieldByName(name)
	if !v.IsValid() {
		return nil
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Interface()
}

// Dump prints s when debugging.
func Dump(s string) {
	if os.Getenv("SYM_DUMP") != "" {
		fmt.Fprintln(os.Stderr, s)
	}
}

// Stdout returns what was written to standard output since the last call.
func Stdout() string {
	if stdout == nil {
		return ""
	}
	b, _ := ioutil.ReadFile(stdout.Name())
	s := string(b[outOff:])
	outOff = int64(len(b))
	return s
}

// File makes a file with the given content and returns its path.
func File(content string) string {
	nfile++
	p := filepath.Join(tmpDir, fmt.Sprintf("file%d", nfile))
	ioutil.WriteFile(p, []byte(content), 0600)
	return p
}

// Catch runs f: 0 normal return, -1 panic, 1000+n os.Exit(n).
func Catch(f func()) (code int, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case violation, assumed, exhausted:
				panic(r)
			case exitCall:
				code = 1000 + e.code
			default:
				code, msg = -1, fmt.Sprint(r)
			}
		}
	}()
	f()
	return 0, ""
}

// Within reports whether f finishes within n interpreter steps (natively: 10 s).
func Within(n int, f func()) bool {
	type res struct{ p interface{} }
	ch := make(chan res, 1)
	go func() {
		defer func() { ch <- res{recover()} }()
		f()
	}()
	select {
	case r := <-ch:
		if r.p != nil {
			panic(r.p)
		}
		return true
	case <-time.After(10 * time.Second):
		return false
	}
}

type job struct {
	H   string
	In  []uint64
	Rep int
}
type result struct {
	Kind string
	Msg  string
	Obs  []string
	N    bool
}

func runOne(f func(), in []uint64) (res result) {
	inputs, pos, obs, nondet = in, 0, nil, false
	res.Kind = "ok"
	ioutil.WriteFile(filepath.Join(tmpDir, "stdout"), nil, 0600)
	outOff = 0
	stdout, _ = os.OpenFile(filepath.Join(tmpDir, "stdout"), os.O_APPEND|os.O_RDWR, 0600)
	save := os.Stdout
	os.Stdout = stdout
	defer func() {
		os.Stdout = save
		stdout.Close()
		res.Obs = obs
		res.N = nondet
		if r := recover(); r != nil {
			switch e := r.(type) {
			case violation:
				res.Kind, res.Msg = "violation", e.msg
			case assumed:
				res.Kind = "assume"
			case exhausted:
				res.Kind = "exhausted"
			case exitCall:
				res.Kind, res.Msg = "violation", fmt.Sprintf("uncaught os.Exit(%d)", e.code)
			default:
				res.Kind, res.Msg = "violation", "uncaught panic: "+fmt.Sprint(r)
			}
		}
	}()
	f()
	return
}

// Main runs the jobs of the JSON file given as first argument.
func Main(all map[string]func()) {
	os.VerifExitHook = func(code int) { panic(exitCall{code}) }
	b, err := ioutil.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.VerifExitHook = nil
		os.Exit(2)
	}
	var jobs []job
	if err := json.Unmarshal(b, &jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.VerifExitHook = nil
		os.Exit(2)
	}
	tmpDir, _ = ioutil.TempDir("", "symreplay")
	enc := json.NewEncoder(os.Stdout)
	saveErr := os.Stderr
	if os.Getenv("SYM_DUMP") == "" {
		os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	}
	for _, j := range jobs {
		f := all[j.H]
		var r result
		if f == nil {
			r = result{Kind: "nosuch"}
		} else {
			rep := j.Rep
			if rep < 1 {
				rep = 1
			}
			for i := 0; i < rep; i++ {
				r = runOne(f, j.In)
				if r.Kind == "violation" || !r.N {
					break
				}
			}
		}
		enc.Encode(r)
	}
	os.Stderr = saveErr
	os.RemoveAll(tmpDir)
	os.VerifExitHook = nil
	os.Exit(0)
}
