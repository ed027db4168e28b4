package main

// Loading of the program under analysis and interpretation of its package initialisers.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/influxdata/go-syslog/v3"

// World is the resolved program.
type World struct {
	countOnce sync.Once
	count     *counters
	dir       string
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	repo      []*packages.Package
	inline    map[string]bool
	models    map[string]modelFunc
	shim      map[string]*ssa.Function
	globalID  map[*ssa.Global]int
	globalOf  map[int]*ssa.Global
	initS     *State
	initHeap  map[int]*Obj
	running   *ssa.Package
	liveC     map[*ssa.Function]*liveInfo
	units     *units
	initErr   []string
}

var inlineStd = []string{"strings", "bytes", "strconv", "unicode/utf8", "unicode", "sort", "slices", "errors", "cmp", "math/bits",
	"internal/stringslite", "internal/bytealg", "internal/strconv", "maps", "iter", "bufio", "io", "internal/byteorder",
	"github.com/leodido/ragel-machinery", "github.com/leodido/ragel-machinery/parser"}

func (w *World) isRepo(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/") && path != modPath+"/testing"
}

// load type-checks /repo and builds SSA for it and everything it imports.
func load(dir string) (*World, error) {
	w := &World{dir: dir, pkgs: map[string]*ssa.Package{}, inline: map[string]bool{}, globalID: map[*ssa.Global]int{}, globalOf: map[int]*ssa.Global{},
		liveC: map[*ssa.Function]*liveInfo{}, shim: map[string]*ssa.Function{}}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off"),
		Overlay: map[string][]byte{
			filepath.Join(dir, "zzverifshim", "shim.go"): []byte(shimSource),
		},
	}
	ps, err := packages.Load(cfg, "./...", "./zzverifshim")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	for _, p := range ps {
		if p.PkgPath == modPath+"/testing" {
			continue // helpers of the test suite
		}
		if p.PkgPath != modPath+"/zzverifshim" {
			w.repo = append(w.repo, p)
		}
		w.inline[p.PkgPath] = true
	}
	sort.Slice(w.repo, func(i, j int) bool { return w.repo[i].PkgPath < w.repo[j].PkgPath })
	for _, p := range inlineStd {
		w.inline[p] = true
	}
	sh := w.pkgs[modPath+"/zzverifshim"]
	if sh == nil {
		return nil, fmt.Errorf("shim package missing")
	}
	for target, name := range shimTable {
		f := sh.Func(name)
		if f == nil {
			return nil, fmt.Errorf("shim function %s missing", name)
		}
		w.shim[target] = f
	}
	w.models = stdModels()
	var fns []*ssa.Function
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && w.inline[f.Pkg.Pkg.Path()] {
			fns = append(fns, f)
		}
	}
	w.computeUnits(fns)
	if err := w.runInits(); err != nil {
		return nil, err
	}
	return w, nil
}

// fn finds a package-level function of the repository.
func (w *World) fn(pkg, name string) *ssa.Function {
	p := w.pkgs[modPath+pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// methodOf finds a method of a named type of the repository (pointer receiver).
func (w *World) methodOf(pkg, typ, name string) *ssa.Function {
	p := w.pkgs[modPath+pkg]
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	return w.prog.LookupMethod(types.NewPointer(t.Type()), p.Pkg, name)
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, next: 1, facts: map[string]*Fact{}, locks: map[string]int{}, flags: map[string]Val{}}
}

// runInits interprets the package initialisers of the repository.
func (w *World) runInits() error {
	s := newState()
	// standard packages first, tolerating what the interpreter cannot do
	for _, path := range []string{"unicode/utf8", "strings", "bytes", "strconv", "internal/strconv"} {
		if p := w.pkgs[path]; p != nil {
			if n, err := w.runInit(s, p); err == nil {
				s = n
			} else {
				w.initErr = append(w.initErr, path+": "+err.Error())
			}
		}
	}
	for _, rp := range w.repo {
		p := w.pkgs[rp.PkgPath]
		n, err := w.runInit(s, p)
		if err != nil {
			return fmt.Errorf("package initialiser of %s: %v", rp.PkgPath, err)
		}
		s = n
	}
	for id, o := range s.heap {
		c := *o
		if c.pre == "" {
			c.pre = "package data"
		}
		s.heap[id] = &c
	}
	w.initS = s
	w.initHeap = map[int]*Obj{}
	for k, v := range s.heap {
		w.initHeap[k] = v
	}
	return nil
}

func (w *World) runInit(s0 *State, p *ssa.Package) (*State, error) {
	e := newEngine(w, "init")
	s := s0.clone()
	s.e = e
	w.running = p
	defer func() { w.running = nil }()
	var res *State
	e.script = func(s *State) {
		res = s
		panic(&stopReq{})
	}
	s.push(p.Func("init"), nil, nil)
	s.steps = -3000000
	e.run(s)
	if len(e.findings) > 0 {
		return nil, fmt.Errorf("%s: %s at %s", e.findings[0].cat, e.findings[0].msg, e.findings[0].where)
	}
	if res == nil {
		return nil, fmt.Errorf("does not finish")
	}
	res.steps = 0
	res.frames = nil
	return res, nil
}

var knownErrors = map[string]string{"io.EOF": "EOF", "io.ErrUnexpectedEOF": "unexpected EOF", "io.ErrNoProgress": "multiple Read calls return no data or error",
	"bufio.ErrNegativeCount": "bufio: negative count", "bufio.ErrBufferFull": "bufio: buffer full", "bufio.ErrInvalidUnreadByte": "bufio: invalid use of UnreadByte"}

func (w *World) lazyGlobal(e *Engine, g *ssa.Global) Val {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		text := knownErrors[name]
		if text == "" {
			text = name
		}
		return &IfaceV{errTyp, &TermV{op: "err", args: []Val{lit(text), lit(name)}, nonnil: true}}
	}
	if strings.HasSuffix(g.Name(), "init$guard") {
		return BoolV(false)
	}
	if name == "time.Local" || name == "time.UTC" {
		return &TermV{op: name, nonnil: true}
	}
	return UnkV{why: "package variable " + name}
}

func (w *World) copyReach(s *State, v Val) {}

// initial gives a fresh state after package initialisation.
func (w *World) initial(e *Engine) *State {
	s := w.initS.clone()
	s.e = e
	s.phase, s.ret0, s.trace = 0, nil, nil
	s.heap = map[int]*Obj{}
	return s
}
