package main

// Fixpoint engine: work list, memoisation, liveness, static units.

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugTrace = os.Getenv("DEBUG_TRACE") != ""

type modelFunc func(s *State, args []Val) Val

// NamedQ is a number read from the digits between two marks.
type NamedQ struct {
	sym       *Sym
	base, end string
}

type Mark struct {
	name string
	off  int
}

// Mon is a reference automaton over one input stream.
type Mon interface {
	Key() string
	Label(c byte) int
	Asks(ctx *MonCtx, label int) []*TermV
	Marks(label int, ans []bool) []Mark
	Step(ctx *MonCtx, label int, ans []bool) Mon
	Exact() []string
	Initial() []string
	ByteSetAt(name string, off int) *ByteSet
	Range(a, b string) (lo, hi int64, ok bool)
	RangeMarks() []string
	Named() []NamedQ
	Subst(z *subst) Mon
	Regs() []string
	Reg(r string) Val
	SetReg(r string, v Val) Mon
}

// MonCtx gives a reference automaton access to the state.
type MonCtx struct {
	s *State
	t *Stream
}

// Finding is a violation found.
type Finding struct {
	cat, msg string
	where    string
	witness  string
	config   string
}

// Engine explores one harness to a fixpoint.
type Engine struct {
	w              *World
	prog           *ssa.Program
	name           string
	visited        map[[32]byte]bool
	stack          []*State
	queue          []*State
	firstFound     time.Time
	findings       []*Finding
	fkeys          map[string]bool
	models         map[string]modelFunc
	override       map[*ssa.Function]modelFunc
	shim           map[string]*ssa.Function
	used           map[string]bool
	funcs          map[*ssa.Function]bool
	onAccess       func(s *State, o *Obj, p PtrV, write bool)
	script         func(s *State) // called when no frame is left
	opaque         func(s *State, f OpaqueFn, args []Val) Val
	lookTok        func(s *State, tok, k Val) (bool, Val)
	lacksTok       func(s *State, tok, k Val) bool
	lenTok         func(s *State, c *MapC) *Lin
	lookaheadConst func(s *State, st int) bool
	curCall        *ssa.CallCommon
	hooks          *streamHooks
	nAdvance       int
	nStates        int
	nFinal         int
	nForks         int
	maxStates      int
	config         string
	permute        bool
	anyText        bool // texts other than those of streams are read by position
	shortStart     bool
	oblig          map[string]int
	verdicts       map[string]int
	mustVerdicts   []string
	loops          bool // the harness repeats forever, verdicts tell that it gets around
	near           int  // distance up to which marks are tracked exactly
}

func newEngine(w *World, name string) *Engine {
	e := &Engine{w: w, prog: w.prog, name: name, visited: map[[32]byte]bool{}, fkeys: map[string]bool{},
		models: w.models, override: map[*ssa.Function]modelFunc{}, shim: w.shim, used: map[string]bool{}, oblig: map[string]int{}, verdicts: map[string]int{}, funcs: map[*ssa.Function]bool{}, maxStates: 400000, near: 1}
	return e
}

func (e *Engine) seen(f *ssa.Function) { e.funcs[f] = true }

func (e *Engine) inlineOK(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil {
		if f.Synthetic != "" {
			return true // wrappers and bound methods
		}
		return false
	}
	return e.w.inline[p.Pkg.Path()]
}

func (e *Engine) tokLookup(s *State, tok, k Val) (bool, Val) {
	if e.lookTok != nil {
		return e.lookTok(s, tok, k)
	}
	s.undecided("lookup in an abstract map")
	return false, nil
}
func (e *Engine) tokLacks(s *State, tok, k Val) bool {
	return e.lacksTok != nil && e.lacksTok(s, tok, k)
}
func (e *Engine) tokLen(s *State, c *MapC) *Lin {
	if e.lenTok != nil {
		return e.lenTok(s, c)
	}
	s.undecided("size of an abstract map")
	return nil
}
func (e *Engine) opaqueCall(s *State, f OpaqueFn, args []Val) Val {
	if e.opaque != nil {
		return e.opaque(s, f, args)
	}
	s.undecided("call of user function %s", f.name)
	return nil
}

// mapOrder explores every iteration order of a small map.
func (e *Engine) mapOrder(s *State, it *IterV) Val {
	n := len(it.list)
	if n < 2 {
		return it
	}
	if n > 4 {
		s.undecided("iteration over a map of %d entries", n)
	}
	key := "order:" + strconv.Itoa(it.m)
	f := s.top()
	if f.tmp == nil || f.tmp[1000] == nil {
		var alts []func(*State)
		perms := permutations(n)
		for i := range perms {
			i := i
			alts = append(alts, func(m *State) {
				g := m.top()
				if g.tmp == nil {
					g.tmp = map[int]Val{}
				}
				g.tmp[1000] = con(int64(i))
			})
		}
		_ = key
		fork(alts...)
	}
	p := permutations(n)[f.tmp[1000].(*Lin).c]
	delete(f.tmp, 1000)
	r := *it
	r.list = nil
	for _, i := range p {
		r.list = append(r.list, it.list[i])
	}
	return &r
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

// global gives the address of a package variable.
func (e *Engine) global(s *State, g *ssa.Global) Val {
	id, ok := e.w.globalID[g]
	if !ok {
		id = -len(e.w.globalID) - 1
		e.w.globalID[g] = id
		e.w.globalOf[id] = g
	}
	if s.obj(id) == nil {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		var v Val
		if e.w.initHeap != nil && e.w.initHeap[id] != nil {
			v = e.w.initHeap[id].val
		} else if g.Pkg != nil && e.w.isRepo(g.Pkg.Pkg.Path()) || e.w.running != nil && g.Pkg == e.w.running {
			v = zeroObj(t)
		} else {
			v = e.w.lazyGlobal(e, g)
		}
		s.heap[id] = &Obj{typ: t, val: v, pre: "package variable " + g.String()}
		// referenced objects
		if e.w.initHeap != nil {
			e.w.copyReach(s, v)
		}
	}
	return PtrV{id, ""}
}

// start explores from an initial state.
func (e *Engine) run(init *State) {
	init.e = e
	e.stack = append(e.stack, init)
	for len(e.stack) > 0 || len(e.queue) > 0 {
		var s *State
		if n := len(e.stack); n > 0 {
			s = e.stack[n-1]
			e.stack = e.stack[:n-1]
		} else {
			s = e.queue[0]
			e.queue[0] = nil
			e.queue = e.queue[1:]
		}
		e.path(s)
		if e.nStates > e.maxStates {
			e.report(s, "undecided", "more than "+strconv.Itoa(e.maxStates)+" abstract states")
			return
		}
		if time.Now().After(deadline) {
			e.report(s, "undecided", "the analysis does not end within its time")
			return
		}
		if len(e.findings) > 40 || len(e.findings) > 0 && time.Since(e.firstFound) > 150*time.Second {
			return // there is enough to report
		}
	}
}

// deadline is the time by which the analysis gives up.
var deadline = time.Now().Add(10 * time.Minute)

// path runs a state until it forks or ends.
func (e *Engine) path(s *State) {
	for {
		if !e.one(s) {
			return
		}
	}
}

func (e *Engine) one(s *State) (more bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case *forkReq:
			more = false
			if len(x.alts) == 1 && !x.frontier {
				x.alts[0](s)
				more = true
				return
			}
			e.nForks++
			for i, a := range x.alts {
				n := s
				if i < len(x.alts)-1 {
					n = s.clone()
				}
				n.fresh = nil
				a(n)
				if n.infeasible() {
					continue
				}
				if x.frontier {
					e.queue = append(e.queue, n)
				} else {
					e.stack = append(e.stack, n)
				}
			}
		case *stopReq:
			more = false
		case *violReq:
			e.report(s, x.cat, x.msg)
			more = false
		case reexec:
			more = true
		default:
			if os.Getenv("DEBUG_PANIC") != "" {
				panic(r)
			}
			e.report(s, "undecided", fmt.Sprintf("internal: %v", r))
			more = false
		}
	}()
	for {
		if len(s.frames) == 0 {
			s.steps++
			if s.steps > stepLimit {
				s.undecided("endless check")
			}
			e.script(s)
			continue
		}
		s.step()
	}
}

func (e *Engine) report(s *State, cat, msg string) {
	where := ""
	if len(s.frames) > 0 {
		f := s.top()
		where = f.fn.String()
		for i := f.idx; i >= 0 && i < len(f.block.Instrs); i-- {
			if p := f.block.Instrs[i].Pos(); p.IsValid() {
				pp := e.prog.Fset.Position(p)
				where += fmt.Sprintf(" (%s:%d)", strings.TrimPrefix(pp.Filename, e.w.dir+"/"), pp.Line)
				break
			}
		}
	}
	key := cat + "|" + msg + "|" + where
	if i := strings.Index(msg, " <<"); i > 0 {
		key = cat + "|" + msg[:i] + "|" + where
	}
	if e.fkeys[key] {
		return
	}
	e.fkeys[key] = true
	if cat == "term" {
		e.stack = nil // more of it would only take time
	}
	if len(e.findings) == 0 {
		e.firstFound = time.Now()
	}
	e.findings = append(e.findings, &Finding{cat: cat, msg: msg, where: where, witness: s.witness(), config: e.config})
}

// witness renders the input seen on the way to a state.
func (s *State) witness() string {
	per := map[int][]byte{}
	notes := []string{}
	end := map[int]bool{}
	var nodes []*traceNode
	for n := s.trace; n != nil; n = n.up {
		nodes = append(nodes, n)
	}
	for i := len(nodes) - 1; i >= 0; i-- {
		n := nodes[i]
		if n.s < 0 {
			notes = append(notes, n.note)
		} else if n.note == "end" {
			end[n.s] = true
		} else if n.set != (ByteSet{}) {
			set := n.set
			per[n.s] = append(per[n.s], set.repr())
		}
	}
	for i, t := range s.streams {
		if t.status == stByte {
			set := t.set
			per[i] = append(per[i], set.repr())
		}
	}
	var b strings.Builder
	for i, t := range s.streams {
		if !t.started {
			continue
		}
		fmt.Fprintf(&b, "%s=%q", t.name, per[i])
		if !end[i] {
			b.WriteString("...")
		}
		b.WriteByte(' ')
	}
	for _, n := range notes {
		b.WriteString("; " + n)
	}
	return b.String()
}

// memoisation -------------------------------------------------------------------

// visit says whether the state is new.
func (e *Engine) visit(s *State) bool {
	k := e.stateKey(s)
	h := sha256.Sum256([]byte(k))
	if e.visited[h] {
		return false
	}
	e.visited[h] = true
	e.nStates++
	if os.Getenv("DEBUG_KEYS") != "" {
		fmt.Fprintln(os.Stderr, "STATE", e.nStates, k)
	}
	return true
}

func (e *Engine) stateKey(s *State) string {
	// prune registers
	for i, f := range s.frames {
		li := e.w.live(f.fn)
		var set []ssa.Value
		if i == len(s.frames)-1 || s.frames[i+1].tmpTo > 0 || f.tmp != nil {
			set = li.before(f.block, f.idx)
		} else {
			set = li.after(f.block, f.idx)
		}
		if len(set) != len(f.regs) {
			n := make(map[ssa.Value]Val, len(set)+4)
			for _, v := range set {
				if x, ok := f.regs[v]; ok {
					n[v] = x
				}
			}
			f.regs = n
		}
	}
	var b strings.Builder
	ids := map[int]int{}
	var order []int
	id := func(o int) int {
		if o < 0 {
			return o
		}
		if s.heap[o] == nil {
			return -1000000 - o
		}
		if n, ok := ids[o]; ok {
			return n
		}
		n := len(ids) + 1
		ids[o] = n
		order = append(order, o)
		return n
	}
	live := map[*Sym]bool{}
	mark := func(v Val) {
		if hasSyms(v) {
			symsOf(v, func(y *Sym) { live[y] = true })
		}
	}
	fmt.Fprintf(&b, "ph%d;", s.phase)
	if s.ret0 != nil {
		writeValF(&b, s.ret0, id)
		mark(s.ret0)
	}
	for _, f := range s.frames {
		fmt.Fprintf(&b, "\nF%p.%d.%d.%d:", f.fn, f.block.Index, f.idx, f.tmpTo)
		li := e.w.live(f.fn)
		vs := make([]ssa.Value, 0, len(f.regs))
		for v := range f.regs {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return li.num[vs[i]] < li.num[vs[j]] })
		for _, v := range vs {
			fmt.Fprintf(&b, "%d=", li.num[v])
			writeValF(&b, f.regs[v], id)
			mark(f.regs[v])
			b.WriteByte(';')
		}
		for _, d := range f.defers {
			b.WriteString("D")
			writeValF(&b, d.fn, id)
			for _, a := range d.args {
				writeValF(&b, a, id)
				mark(a)
			}
		}
		if f.tmp != nil {
			var ks []int
			for k := range f.tmp {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				fmt.Fprintf(&b, "T%d=", k)
				writeValF(&b, f.tmp[k], id)
				mark(f.tmp[k])
			}
		}
	}
	for _, k := range sortedKeys(s.flags) {
		b.WriteString("\nK" + k + "=")
		writeValF(&b, s.flags[k], id)
		mark(s.flags[k])
	}
	for _, v := range s.expect {
		b.WriteString("\nE")
		writeValF(&b, v, id)
		mark(v)
	}
	for _, r := range s.roots {
		id(r)
	}
	for i := 0; i < len(order); i++ {
		o := s.obj(order[i])
		fmt.Fprintf(&b, "\nO%d=", i+1)
		if o == nil {
			continue
		}
		if o.pre != "" || o.grown || o.froze || o.given {
			fmt.Fprintf(&b, "[%s %v %v %v %v %v]", o.pre, o.lock, o.input, o.grown, o.froze, o.given)
		}
		writeValF(&b, o.val, id)
		mark(o.val)
	}
	// modified globals
	var gl []int
	for o := range s.heap {
		if e.w.initHeap != nil && e.w.initHeap[o] != nil && e.w.initHeap[o].val != s.heap[o].val {
			gl = append(gl, o)
		}
	}
	sort.Ints(gl)
	for _, o := range gl {
		fmt.Fprintf(&b, "\nG%d=", o)
		writeValF(&b, s.obj(o).val, id)
	}
	for _, k := range sortedKeys(s.locks) {
		fmt.Fprintf(&b, "\nL%s=%d", k, s.locks[k])
	}
	for _, t := range s.streams {
		if t.mon != nil {
			for _, r := range t.mon.Regs() {
				if v := t.mon.Reg(r); v != nil {
					mark(v)
				}
			}
		}
	}
	for _, t := range s.streams {
		// forget distances of marks nothing refers to
		exact := map[string]bool{"Start": true}
		if t.mon != nil {
			for _, n := range t.mon.Exact() {
				exact[t.resolve(n)] = true
			}
			for _, n := range t.mon.RangeMarks() {
				exact[t.resolve(n)] = true
			}
		}
		used := map[string]bool{}
		for y := range live {
			if y.s == t.id && (y.kind == 'P' || y.kind == 'B') {
				used[y.name] = true
			}
		}
		for n := range t.dist {
			if !exact[n] && !used[n] && strings.HasSuffix(n, "'") {
				delete(t.dist, n)
			}
		}
		fmt.Fprintf(&b, "\nS%d:%d:%s:", t.id, t.status, t.set.key())
		if !t.without.empty() {
			fmt.Fprintf(&b, "-%s:", t.without.key())
		}
		for _, n := range sortedKeys(t.dist) {
			fmt.Fprintf(&b, "%s@%d,", n, t.dist[n])
		}
		for _, n := range sortedKeys(t.alias) {
			fmt.Fprintf(&b, "%s=%s,", n, t.alias[n])
		}
		if t.mon != nil {
			b.WriteString(t.mon.Key())
		}
	}
	// facts
	for _, k := range sortedKeys(s.facts) {
		f := s.facts[k]
		keep := true
		chk := func(y *Sym) {
			if (y.kind == 'P' || y.kind == 'B') && y.name == "Lost" {
				keep = false
			}
			if y.kind == 'P' && (y.name == "H" || y.name == "End") {
				return
			}
			if !live[y] && !(y.kind == 'N' && strings.HasPrefix(y.name, "old") && !strings.HasPrefix(y.name, "older")) { // the harness still compares with these
				keep = false
			}
		}
		switch {
		case f.lin != nil:
			symsOf(f.lin, chk)
		case f.bsym != nil:
			y := f.bsym
			if y.name == "Lost" {
				keep = false
			} else if y.name == "H" {
				keep = live[y] || s.streams[y.s].hist && y.off >= -s.e.histLen()
			} else {
				keep = live[y]
			}
		case f.atom != nil:
			symsOf(f.atom, chk)
			if hasLostTok(f.atom) {
				keep = false
			}
		}
		if !keep {
			delete(s.facts, k)
			continue
		}
		fmt.Fprintf(&b, "\n%s:", k)
		switch {
		case f.lin != nil:
			fmt.Fprintf(&b, "%d..%d%v", f.lo, f.hi, f.ne)
		case f.bsym != nil:
			b.WriteString(f.set.key())
		case f.atom != nil:
			fmt.Fprint(&b, f.val)
		}
	}
	// drop garbage objects
	for o, ob := range s.heap {
		if o >= 0 && ob.pre == "" {
			if _, ok := ids[o]; !ok {
				delete(s.heap, o)
			}
		}
	}
	return b.String()
}

func (e *Engine) histLen() int { return 2 }

func hasLostTok(v Val) bool {
	found := false
	z := &subst{lin: func(l *Lin) *Lin { return l }}
	z.val = func(v Val) (Val, bool) {
		if t, ok := v.(TokV); ok && (t.name == "Lost") {
			found = true
		}
		return nil, false
	}
	z.do(v)
	return found
}

// liveness ------------------------------------------------------------------------

type liveInfo struct {
	fn     *ssa.Function
	num    map[ssa.Value]int
	out    []map[ssa.Value]bool
	cacheB map[[2]int][]ssa.Value
	cacheA map[[2]int][]ssa.Value
}

func (w *World) live(fn *ssa.Function) *liveInfo {
	if li := w.liveC[fn]; li != nil {
		return li
	}
	li := &liveInfo{fn: fn, num: map[ssa.Value]int{}, cacheB: map[[2]int][]ssa.Value{}, cacheA: map[[2]int][]ssa.Value{}}
	n := 0
	add := func(v ssa.Value) { li.num[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	nb := len(fn.Blocks)
	li.out = make([]map[ssa.Value]bool, nb)
	in := make([]map[ssa.Value]bool, nb)
	for i := range li.out {
		li.out[i] = map[ssa.Value]bool{}
		in[i] = map[ssa.Value]bool{}
	}
	// work list, backward
	work := make([]int, 0, nb)
	inw := make([]bool, nb)
	for i := nb - 1; i >= 0; i-- {
		work = append(work, i)
		inw[i] = true
	}
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		inw[k] = false
		b := fn.Blocks[k]
		out := li.out[k]
		for _, sc := range b.Succs {
			for v := range in[sc.Index] {
				out[v] = true
			}
			for _, i := range sc.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for e, pr := range sc.Preds {
					if pr == b {
						if _, ok := li.num[p.Edges[e]]; ok {
							out[p.Edges[e]] = true
						}
					}
				}
			}
		}
		cur := map[ssa.Value]bool{}
		for v := range out {
			cur[v] = true
		}
		li.back(b, len(b.Instrs), 0, cur)
		if len(cur) != len(in[k]) {
			in[k] = cur
			for _, p := range b.Preds {
				if !inw[p.Index] {
					inw[p.Index] = true
					work = append(work, p.Index)
				}
			}
		}
	}
	w.liveC[fn] = li
	return li
}

// back applies the transfer of instructions [from,to) of b in reverse.
func (li *liveInfo) back(b *ssa.BasicBlock, to, from int, cur map[ssa.Value]bool) {
	for i := to - 1; i >= from; i-- {
		ins := b.Instrs[i]
		if v, ok := ins.(ssa.Value); ok {
			delete(cur, v)
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		var ops []*ssa.Value
		for _, o := range ins.Operands(ops) {
			if *o != nil {
				if _, ok := li.num[*o]; ok {
					cur[*o] = true
				}
			}
		}
	}
}

func (li *liveInfo) sorted(m map[ssa.Value]bool) []ssa.Value {
	r := make([]ssa.Value, 0, len(m))
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return li.num[r[i]] < li.num[r[j]] })
	return r
}

func (li *liveInfo) before(b *ssa.BasicBlock, idx int) []ssa.Value {
	k := [2]int{b.Index, idx}
	if r, ok := li.cacheB[k]; ok {
		return r
	}
	cur := map[ssa.Value]bool{}
	for v := range li.out[b.Index] {
		cur[v] = true
	}
	li.back(b, len(b.Instrs), idx, cur)
	r := li.sorted(cur)
	li.cacheB[k] = r
	return r
}

func (li *liveInfo) after(b *ssa.BasicBlock, idx int) []ssa.Value {
	k := [2]int{b.Index, idx}
	if r, ok := li.cacheA[k]; ok {
		return r
	}
	cur := map[ssa.Value]bool{}
	for v := range li.out[b.Index] {
		cur[v] = true
	}
	if _, ok := b.Instrs[idx].(*ssa.RunDefers); ok {
		li.back(b, len(b.Instrs), idx, cur)
	} else {
		li.back(b, len(b.Instrs), idx+1, cur)
		if v, ok := b.Instrs[idx].(ssa.Value); ok {
			delete(cur, v)
		}
	}
	r := li.sorted(cur)
	li.cacheA[k] = r
	return r
}

// position units --------------------------------------------------------------------

type units struct {
	parent map[interface{}]interface{}
	pos    map[interface{}]bool
}

func (u *units) find(x interface{}) interface{} {
	p, ok := u.parent[x]
	if !ok {
		u.parent[x] = x
		return x
	}
	if p == x {
		return x
	}
	r := u.find(p)
	u.parent[x] = r
	return r
}

func (u *units) union(a, b interface{}) {
	ra, rb := u.find(a), u.find(b)
	if ra == rb {
		return
	}
	u.parent[ra] = rb
	if u.pos[ra] {
		u.pos[rb] = true
	}
}

func (u *units) isPos(x interface{}) bool { return u.pos[u.find(x)] }
func (u *units) mark(x interface{})       { u.pos[u.find(x)] = true }

// computeUnits finds the integers used as positions in byte sequences.
func (w *World) computeUnits(fns []*ssa.Function) {
	u := &units{parent: map[interface{}]interface{}{}, pos: map[interface{}]bool{}}
	w.units = u
	node := func(v ssa.Value) interface{} {
		if _, ok := v.(*ssa.Const); ok {
			return nil
		}
		if !isInt(v.Type()) {
			return nil
		}
		return v
	}
	join := func(a, b ssa.Value) {
		x, y := node(a), node(b)
		if x != nil && y != nil {
			u.union(x, y)
		}
	}
	addr := func(a ssa.Value) interface{} {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return st.Field(x.Field)
		case *ssa.Alloc, *ssa.Global, *ssa.FreeVar, *ssa.Parameter:
			return x
		}
		return nil
	}
	byteSeq := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		return isBytes(t) || isString(t)
	}
	markV := func(v ssa.Value) {
		if v == nil {
			return
		}
		if n := node(v); n != nil {
			u.mark(n)
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						join(x, e)
					}
				case *ssa.BinOp:
					switch x.Op {
					case token.ADD:
						join(x, x.X)
						join(x, x.Y)
					case token.SUB:
						if _, ok := x.Y.(*ssa.Const); ok {
							join(x, x.X)
						}
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
						join(x.X, x.Y)
					}
				case *ssa.Convert:
					if !isByteType(x.X.Type()) && !isByteType(x.Type()) {
						join(x, x.X)
					}
				case *ssa.ChangeType:
					join(x, x.X)
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if n := addr(x.X); n != nil && node(x) != nil {
							u.union(n, node(x))
						}
					}
				case *ssa.Store:
					if n := addr(x.Addr); n != nil && node(x.Val) != nil {
						u.union(n, node(x.Val))
					}
				case *ssa.IndexAddr:
					if byteSeq(x.X.Type()) {
						markV(x.Index)
					}
				case *ssa.Index:
					if byteSeq(x.X.Type()) {
						markV(x.Index)
					}
				case *ssa.Lookup:
					if isString(x.X.Type()) {
						markV(x.Index)
					}
				case *ssa.Slice:
					if byteSeq(x.X.Type()) {
						markV(x.Low)
						markV(x.High)
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						if bi.Name() == "len" && byteSeq(x.Call.Args[0].Type()) {
							markV(x)
						}
						continue
					}
					if cal := x.Call.StaticCallee(); cal != nil {
						for i, p := range cal.Params {
							if i < len(x.Call.Args) {
								join(p, x.Call.Args[i])
							}
						}
						for _, cb := range cal.Blocks {
							if r, ok := cb.Instrs[len(cb.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
								join(x, r.Results[0])
							}
						}
					}
				case *ssa.MakeClosure:
					for i, bd := range x.Bindings {
						u.union(x.Fn.(*ssa.Function).FreeVars[i], bd)
					}
				}
			}
		}
	}
}

func (e *Engine) isPosReg(v ssa.Value) bool {
	if !isInt(v.Type()) {
		return false
	}
	return e.w.units.isPos(v)
}

func (e *Engine) posFields(s *State, o *Obj) [][]int {
	var r [][]int
	if o.site != nil && isInt(o.typ) && e.w.units.isPos(o.site) {
		return [][]int{nil}
	}
	var walk func(t types.Type, path []int)
	walk = func(t types.Type, path []int) {
		if isTime(t) {
			return
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			p := append(append([]int(nil), path...), i)
			if isInt(st.Field(i).Type()) && e.w.units.isPos(st.Field(i)) {
				r = append(r, p)
			} else {
				walk(st.Field(i).Type(), p)
			}
		}
	}
	if _, ok := o.val.(*StructV); ok {
		walk(o.typ, nil)
	}
	return r
}
