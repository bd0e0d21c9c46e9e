package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/k0kubun/sqldef"

type Build struct {
	repo    string
	verif   string
	work    string // scratch directory
	overlay map[string][]byte
	files   map[string]string // virtual path -> real path
	pkgs    []string          // harness package names
	funcs   map[string]map[string]bool
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
}

// NewBuild prepares overlays for the given harness packages.
func NewBuild(repo, verif, work string, pkgs []string) (*Build, error) {
	b := &Build{repo: repo, verif: verif, work: work, overlay: map[string][]byte{}, files: map[string]string{}, pkgs: pkgs, funcs: map[string]map[string]bool{}}
	put := func(virt string, data []byte) error {
		real := filepath.Join(work, fmt.Sprintf("ov%d_%s", len(b.files), filepath.Base(virt)))
		if err := os.WriteFile(real, data, 0o644); err != nil {
			return err
		}
		b.overlay[virt] = data
		b.files[virt] = real
		return nil
	}
	addDir := func(src, virt string) error {
		ents, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			data, err := os.ReadFile(filepath.Join(src, e.Name()))
			if err != nil {
				return err
			}
			if err := put(filepath.Join(virt, e.Name()), data); err != nil {
				return err
			}
		}
		return nil
	}
	seen := map[string]bool{}
	var add func(p string) error
	add = func(p string) error {
		if seen[p] {
			return nil
		}
		seen[p] = true
		dir := filepath.Join(verif, "harness", p)
		if err := addDir(dir, filepath.Join(repo, "zverif", p)); err != nil {
			return err
		}
		// harness packages imported by this one
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			data, _ := os.ReadFile(filepath.Join(dir, e.Name()))
			for _, l := range strings.Split(string(data), "\n") {
				if i := strings.Index(l, `"`+modPath+"/zverif/"); i >= 0 {
					rest := l[i+len(modPath)+len("/zverif/")+1:]
					if j := strings.Index(rest, `"`); j >= 0 {
						if err := add(rest[:j]); err != nil {
							return err
						}
					}
				}
			}
		}
		return nil
	}
	if err := add("sym"); err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if err := add(p); err != nil {
			return nil, err
		}
	}
	// standard library stand-ins
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, fmt.Errorf("go env GOROOT: %v", err)
	}
	goroot := strings.TrimSpace(string(out))
	sql, err := os.ReadFile(filepath.Join(verif, "overlay", "sql.go.txt"))
	if err != nil {
		return nil, err
	}
	put(filepath.Join(goroot, "src/database/sql/sql.go"), sql)
	for _, f := range []string{"convert.go", "ctxutil.go", "closemu.go"} {
		p := filepath.Join(goroot, "src/database/sql", f)
		if _, err := os.Stat(p); err == nil {
			put(p, []byte("package sql\n"))
		}
	}
	proc, err := os.ReadFile(filepath.Join(goroot, "src/os/proc.go"))
	if err != nil {
		return nil, err
	}
	ps := strings.Replace(string(proc), "func Exit(code int) {", "func Exit(code int) {\n\tif VerifExitHook != nil {\n\t\tVerifExitHook(code)\n\t}\n", 1) + "\nvar VerifExitHook func(int)\n"
	put(filepath.Join(goroot, "src/os/proc.go"), []byte(ps))
	return b, nil
}

// Load type-checks and builds SSA for the harness packages and all dependencies.
func (b *Build) Load() (*Program, map[string]*ssa.Function, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     b.repo,
		Env:     goEnv(),
		Overlay: b.overlay,
	}
	var pats []string
	for _, p := range b.pkgs {
		pats = append(pats, modPath+"/zverif/"+p)
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, ipkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fns: map[*ssa.Function]*Func{}, gidx: map[*ssa.Global]int{}, impl: map[[2]int]bool{}, repo: b.repo}
	for _, q := range prog.AllPackages() {
		switch q.Pkg.Path() {
		case "runtime":
			if o := q.Pkg.Scope().Lookup("errorString"); o != nil {
				p.runtimeErr = rtypeOf(o.Type())
			}
		case "errors":
			if o := q.Pkg.Scope().Lookup("errorString"); o != nil {
				p.rtError = rtypeOf(types.NewPointer(o.Type()))
			}
		case "fmt":
			if o := q.Pkg.Scope().Lookup("wrapError"); o != nil {
				p.rtWrap = rtypeOf(types.NewPointer(o.Type()))
			}
		}
	}
	p.rtString = rtypeOf(types.Typ[types.String])
	hs := map[string]*ssa.Function{}
	for i, ip := range ipkgs {
		if ip == nil {
			continue
		}
		b.funcs[b.pkgs[i]] = map[string]bool{}
		for name, mem := range ip.Members {
			f, ok := mem.(*ssa.Function)
			if !ok || !strings.HasPrefix(name, "H") || f.Signature.Params().Len() != 0 {
				continue
			}
			hs[b.pkgs[i]+"."+name] = f
			b.funcs[b.pkgs[i]][name] = true
		}
	}
	return p, hs, nil
}

// BuildNative compiles the replay binary.
func (b *Build) BuildNative(hs map[string]*ssa.Function) (string, error) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + modPath + "/zverif/sym\"\n")
	for i, p := range b.pkgs {
		fmt.Fprintf(&sb, "\tp%d %q\n", i, modPath+"/zverif/"+p)
	}
	sb.WriteString(")\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for i, p := range b.pkgs {
		var names []string
		for n := range b.funcs[p] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fmt.Fprintf(&sb, "\t\t%q: p%d.%s,\n", p+"."+n, i, n)
		}
	}
	sb.WriteString("\t})\n}\n")
	virt := filepath.Join(b.repo, "zverif", "replaymain", "main.go")
	real := filepath.Join(b.work, "replaymain.go")
	if err := os.WriteFile(real, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	repl := map[string]string{virt: real}
	for k, v := range b.files {
		repl[k] = v
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(b.work, "overlay.json")
	if err := os.WriteFile(ov, js, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(b.work, "replay")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, modPath+"/zverif/replaymain")
	cmd.Dir = b.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay binary: %v\n%s", err, out)
	}
	return bin, nil
}
