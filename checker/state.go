package main

// Abstract states: frames, heap, input streams, facts; forking and memoisation.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var globalTab = newSymTab()

func init() {
	symOfPos = func(y *Sym) *Sym { return globalTab.pos(y.s, y.name) }
}

// ByteSet is a set of byte values.
type ByteSet [4]uint64

func fullSet() ByteSet { return ByteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} }
func (b *ByteSet) has(c int) bool {
	return b[c>>6]&(1<<(uint(c)&63)) != 0
}
func (b *ByteSet) add(c int)  { b[c>>6] |= 1 << (uint(c) & 63) }
func (b ByteSet) empty() bool { return b == ByteSet{} }
func (b ByteSet) full() bool  { return b == fullSet() }
func (b ByteSet) and(o ByteSet) ByteSet {
	for i := range b {
		b[i] &= o[i]
	}
	return b
}
func (b ByteSet) union(o ByteSet) ByteSet {
	for i := range b {
		b[i] |= o[i]
	}
	return b
}
func (b ByteSet) count() int {
	n := 0
	for c := 0; c < 256; c++ {
		if b.has(c) {
			n++
		}
	}
	return n
}
func (b ByteSet) minus(o ByteSet) ByteSet {
	for i := range b {
		b[i] &^= o[i]
	}
	return b
}
func (b ByteSet) key() string {
	return fmt.Sprintf("%x.%x.%x.%x", b[0], b[1], b[2], b[3])
}

// repr picks a readable representative.
func (b *ByteSet) repr() byte {
	for _, c := range []byte("ax10-<>[]=\" :") {
		if b.has(int(c)) {
			return c
		}
	}
	for c := 33; c < 127; c++ {
		if b.has(c) {
			return byte(c)
		}
	}
	for c := 0; c < 256; c++ {
		if b.has(c) {
			return byte(c)
		}
	}
	return 0
}

// Frame is an activation of an SSA function.
type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	regs   map[ssa.Value]Val
	defers []deferred
	tmp    map[int]Val // results of calls made on behalf of a model
	tmpTo  int         // the result goes to the caller's tmp
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

func (f *Frame) clone() *Frame {
	g := *f
	g.regs = make(map[ssa.Value]Val, len(f.regs)+2)
	for k, v := range f.regs {
		g.regs[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	if f.tmp != nil {
		g.tmp = make(map[int]Val, len(f.tmp))
		for k, v := range f.tmp {
			g.tmp[k] = v
		}
	}
	return &g
}

// Obj is a heap object (immutable, replaced on write).
type Obj struct {
	typ   types.Type
	val   Val    // cell content: any value tree, *Str (byte arrays), *ListC, *MapC
	pre   string // non-empty: existed before the analysed call; its description
	lock  bool   // pre-existing object whose mutable fields need the lock
	input bool   // the caller's buffer
	froze bool   // a string shares the bytes
	given bool   // part of a result the user holds
	grown bool   // an append may have written behind the known content
	site  ssa.Value
}

const (
	stUnknown = 0
	stEnd     = 1
	stByte    = 2
)

// Stream is an unknown input byte sequence.
type Stream struct {
	id      int
	status  int
	set     ByteSet
	mon     Mon
	dist    map[string]int // exact distances of recent / kept marks to the frontier
	alias   map[string]string
	started bool
	name    string
	hist    bool
	without ByteSet // bytes known not to occur
	plain   bool    // no position is counted from the beginning of the text
}

func (st *Stream) clone() *Stream {
	n := *st
	n.dist = make(map[string]int, len(st.dist))
	for k, v := range st.dist {
		n.dist[k] = v
	}
	n.alias = make(map[string]string, len(st.alias))
	for k, v := range st.alias {
		n.alias[k] = v
	}
	return &n
}

// Fact is knowledge about a linear form, a byte or an atom.
type Fact struct {
	lin    *Lin // interval facts (constant part 0)
	lo, hi int64
	ne     []int64
	bsym   *Sym
	set    ByteSet
	atom   *TermV
	val    bool
}

type traceNode struct {
	up   *traceNode
	s    int
	set  ByteSet
	note string
}

// State is an abstract state.
type State struct {
	storing Val // the value of the store being looked at
	e       *Engine
	frames  []*Frame
	heap    map[int]*Obj
	next    int
	streams []*Stream
	facts   map[string]*Fact
	locks   map[string]int
	trace   *traceNode
	steps   int
	phase   int   // progress of the harness
	ret0    Val   // result of the last root call
	expect  []Val // expected events not yet delivered
	flags   map[string]Val
	roots   []int // objects the harness refers to
	fresh   []int
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.streams = make([]*Stream, len(s.streams))
	for i, t := range s.streams {
		n.streams[i] = t.clone()
	}
	n.facts = make(map[string]*Fact, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.locks = make(map[string]int, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.flags = make(map[string]Val, len(s.flags))
	for k, v := range s.flags {
		n.flags[k] = v
	}
	n.expect = append([]Val(nil), s.expect...)
	return &n
}

// control transfers -----------------------------------------------------------

type forkReq struct {
	alts     []func(*State)
	frontier bool
}
type stopReq struct{}
type violReq struct {
	cat string
	msg string
}

func fork(alts ...func(*State)) { panic(&forkReq{alts: alts}) }

// violate ends the path with a finding.
func (s *State) violate(cat, format string, a ...interface{}) {
	panic(&violReq{cat, fmt.Sprintf(format, a...)})
}

// note records a violation that does not invalidate the rest of the analysis.
func (s *State) note(cat, format string, a ...interface{}) {
	s.e.report(s, cat, fmt.Sprintf(format, a...))
}

func (s *State) undecided(format string, a ...interface{}) {
	panic(&violReq{"undecided", fmt.Sprintf(format, a...)})
}

// allocation and cells -----------------------------------------------------------

func (s *State) alloc(t types.Type, v Val) int {
	id := s.next
	s.next++
	s.heap[id] = &Obj{typ: t, val: v}
	return id
}

// obj finds an object; objects made by package initialisers are shared by all states.
func (s *State) obj(id int) *Obj {
	if o := s.heap[id]; o != nil {
		return o
	}
	if s.e != nil && s.e.w.initHeap != nil {
		return s.e.w.initHeap[id]
	}
	return nil
}

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	var r []int
	for _, x := range strings.Split(p[1:], "/") {
		n, _ := strconv.Atoi(x)
		r = append(r, n)
	}
	return r
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[i]
		case *ArrayV:
			v = x.e[i]
		case *ListC:
			if x.tok != nil {
				panic(&violReq{"undecided", "element of abstract list"})
			}
			v = x.e[i]
		case StaleV:
			return x
		case UnkV:
			return x
		default:
			panic(&violReq{"undecided", fmt.Sprintf("path into %T", v)})
		}
	}
	return v
}

func setPath(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	switch x := v.(type) {
	case *StructV:
		f := append([]Val(nil), x.f...)
		f[path[0]] = setPath(f[path[0]], path[1:], n)
		return &StructV{f}
	case *ArrayV:
		f := append([]Val(nil), x.e...)
		f[path[0]] = setPath(f[path[0]], path[1:], n)
		return &ArrayV{f}
	case *ListC:
		f := append([]Val(nil), x.e...)
		f[path[0]] = setPath(f[path[0]], path[1:], n)
		return &ListC{x.tok, f}
	}
	panic(&violReq{"undecided", fmt.Sprintf("store path into %T", v)})
}

func (s *State) load(p PtrV) Val {
	o := s.obj(p.obj)
	if o == nil {
		s.undecided("load from unknown object")
	}
	s.checkAccess(o, p, false)
	if _, ok := o.val.(*Str); ok && p.path != "" {
		// element of a byte array
		ix := splitPath(p.path)
		return s.loadElem(&ElemV{p.obj, "", con(int64(ix[0]))})
	}
	v := getPath(o.val, splitPath(p.path))
	return v
}

func (s *State) store(p PtrV, v Val) {
	o := s.obj(p.obj)
	if o == nil {
		s.undecided("store to unknown object")
	}
	s.storing = v
	s.checkAccess(o, p, true)
	s.storing = nil
	n := *o
	if b, ok := o.val.(*Str); ok && p.path != "" {
		ix := splitPath(p.path)
		n.val = s.setByte(b, con(int64(ix[0])), v)
	} else {
		n.val = setPath(o.val, splitPath(p.path), v)
	}
	s.heap[p.obj] = &n
}

func (s *State) setVal(id int, v Val) {
	n := *s.obj(id)
	n.val = v
	s.heap[id] = &n
}

// checkAccess enforces ownership rules on pre-existing objects.
func (s *State) checkAccess(o *Obj, p PtrV, write bool) {
	if o.input && write {
		s.violate("alias", "writes into the caller's input buffer")
	}
	if o.given && write {
		s.violate("listener", "changes a result after giving it to the listener")
	}
	if o.froze && write {
		s.undecided("a write to bytes shared with a string")
	}
	if s.e.onAccess != nil {
		s.e.onAccess(s, o, p, write)
	}
}

// positions -----------------------------------------------------------

func (s *State) H(st int) *Lin { return symLin(globalTab.pos(st, "H")) }

// rel expresses lin as H_s + c when that is exactly known.
func (s *State) rel(l *Lin, st int) (int64, bool) {
	n := s.norm(l)
	if y, c, ok := n.single(); ok && y.kind == 'P' && y.s == st && y.name == "H" {
		return c, true
	}
	if n.isConst() && s.streams[st].started {
		if d, ok := s.streams[st].dist["Start"]; ok {
			return n.c - int64(d), true
		}
	}
	return 0, false
}

// norm replaces marks at exactly known distance by the frontier.
func (s *State) norm(l *Lin) *Lin {
	if len(l.t) == 0 {
		return l
	}
	for {
		ch := false
		for _, t := range l.t {
			if t.y.kind == 'P' && t.y.name != "H" && t.y.name != "End" {
				st := s.streams[t.y.s]
				if d, ok := st.dist[t.y.name]; ok {
					l = l.add(symLin(t.y), -t.k).add(s.H(t.y.s), t.k).plus(-t.k * int64(d))
					ch = true
					break
				}
			}
		}
		if !ch {
			return l
		}
	}
}

// canonPos gives the canonical form of a position H+c (c<0).
func (st *Stream) canonPos(c int64) *Lin {
	best := ""
	for n, d := range st.dist {
		if int64(d) == -c && st.alias[n] == "" {
			if best == "" || n < best {
				best = n
			}
		}
	}
	if best == "Start" {
		return con(0)
	}
	if best != "" {
		return symLin(globalTab.pos(st.id, best))
	}
	if c < -keepBack {
		return symLin(globalTab.pos(st.id, "Lost"))
	}
	return &Lin{c: c, t: []lterm{{1, globalTab.pos(st.id, "H")}}}
}

const keepBack = 6
const startKeep = 8

// canonByte gives the canonical symbol of the byte at H+c (c<0).
func (st *Stream) canonByte(c int64) *Sym {
	best, bd := "", 1<<30
	for n, d := range st.dist {
		if st.alias[n] != "" || n == "Start" {
			continue
		}
		if int64(d) >= -c && (d < bd || d == bd && n < best) {
			best, bd = n, d
		}
	}
	if best != "" {
		return globalTab.byteAt(st.id, best, bd+int(c))
	}
	if c < -keepBack {
		return globalTab.byteAt(st.id, "Lost", int(c))
	}
	return globalTab.byteAt(st.id, "H", int(c))
}

// byteSym is the symbol of the byte at position l of stream st (which must be inside the stream).
func (s *State) byteSym(st int, l *Lin) *Lin {
	if c, ok := s.rel(l, st); ok {
		if c == 0 {
			return symLin(globalTab.byteAt(st, "H", 0))
		}
		return symLin(s.streams[st].canonByte(c))
	}
	if y, c, ok := l.single(); ok && y.kind == 'P' && y.s == st {
		return symLin(globalTab.byteAt(st, y.name, int(c)))
	}
	if l.isConst() {
		if !s.streams[st].started {
			return symLin(globalTab.byteAt(st, "H", int(l.c)))
		}
		return symLin(globalTab.byteAt(st, "", int(l.c)))
	}
	return symLin(globalTab.term(&TermV{op: "inbyte", args: []Val{con(int64(st)), l}}, 0, 255))
}

// setOf returns the known set of values of a byte symbol.
func (s *State) setOf(y *Sym) ByteSet {
	st := s.streams[y.s]
	if y.name == "H" && y.off == 0 && st.status == stByte {
		return st.set
	}
	r := fullSet()
	if f := s.facts["b:"+y.key]; f != nil {
		r = f.set
	}
	if st.mon != nil && (y.name != "H" || y.off < 0) {
		if m := st.mon.ByteSetAt(y.name, y.off); m != nil {
			r = r.and(*m)
		}
	}
	if st.mon != nil {
		for _, n := range st.mon.Named() { // the parts the grammar reads as decimal numbers
			if k := st.digits(n); int64(y.off) >= 0 && int64(y.off) < k {
				if b := st.resolve(n.base); b == y.name || b == "Start" && y.name == "" {
					var d ByteSet
					for c := '0'; c <= '9'; c++ {
						d.add(int(c))
					}
					r = r.and(d)
				}
			}
		}
	}
	return r
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func pow10(k int64) int64 {
	r := int64(1)
	for ; k > 0; k-- {
		r *= 10
	}
	return r
}

// digits is how many digits of the number n are known (0 when that is not known exactly).
func (t *Stream) digits(n NamedQ) int64 {
	bd, ok := t.dist[t.resolve(n.base)]
	if !ok {
		return 0
	}
	k := int64(bd)
	if n.end != "H" {
		ed, ok := t.dist[t.resolve(n.end)]
		if !ok {
			return 0
		}
		k -= int64(ed)
	}
	return k
}

func (s *State) narrow(y *Sym, b ByteSet) {
	st := s.streams[y.s]
	if y.name == "H" && y.off == 0 && st.status == stByte {
		st.set = b
		return
	}
	s.facts["b:"+y.key] = &Fact{bsym: y, set: b}
}

// query makes the status of the frontier of stream st known.
func (s *State) query(st int) {
	t := s.streams[st]
	if !t.started {
		t.started = true
		s.startStream(t)
	}
	if t.status != stUnknown {
		return
	}
	if !s.e.visit(s) {
		panic(&stopReq{})
	}
	s.steps = 0
	panic(&forkReq{frontier: true, alts: []func(*State){func(n *State) { n.atEnd(st) }, func(n *State) {
		n.streams[st].status = stByte
		n.streams[st].set = fullSet().minus(n.streams[st].without)
	}}})
}

// startStream turns position-typed zero constants of live registers and cells into frontier positions.
func (s *State) startStream(t *Stream) {
	t.dist["Start"] = 0
	if t.mon != nil {
		for _, m := range t.mon.Initial() {
			s.declare(t, m, 0)
		}
	}
	if t.plain {
		return
	}
	h := s.H(t.id)
	for _, f := range s.frames {
		for r, v := range f.regs {
			if l, ok := v.(*Lin); ok && l.isConst() && (l.c == 0 || l.c == -1 || l.c == 1) && s.e.isPosReg(r) {
				f.regs[r] = h.plus(l.c)
			}
		}
	}
	for id, o := range s.heap {
		if n := s.e.posFields(s, o); n != nil {
			for _, path := range n {
				if l, ok := getPath(o.val, path).(*Lin); ok && l.isConst() && l.c == 0 {
					no := *s.obj(id)
					no.val = setPath(no.val, path, h)
					s.heap[id] = &no
				}
			}
		}
	}
}

func (s *State) atEnd(st int) {
	t := s.streams[st]
	// the reference automaton learns about the end lazily, in finish
	t.status = stEnd
	s.trace = &traceNode{up: s.trace, s: st, note: "end"}
	if d, ok := t.dist["Start"]; ok && d > 1 && s.e.shortStart {
		delete(t.dist, "Start") // exact short lengths do not matter
	}
	endY := globalTab.pos(st, "End")
	h := s.H(st)
	s.substAll(&subst{lin: func(l *Lin) *Lin {
		for _, x := range l.t {
			if x.y == endY {
				return l.add(symLin(endY), -x.k).add(h, x.k)
			}
		}
		return l
	}})
	if s.e.shortStart && t.mon != nil {
		s.finish(st)
	}
}

// finish lets the reference automaton process the end of the stream (idempotent).
func (s *State) finish(st int) {
	t := s.streams[st]
	if t.status != stEnd || t.mon == nil {
		return
	}
	s.monStep(t, endLabel)
}

const endLabel = -1

// advance consumes the byte at the frontier.
func (s *State) advance(st int) {
	t := s.streams[st]
	if t.status != stByte {
		panic("advance without byte")
	}
	label := 0
	if t.mon != nil {
		// partition the byte set by transition
		groups := map[int]*ByteSet{}
		for c := 0; c < 256; c++ {
			if t.set.has(c) {
				l := t.mon.Label(byte(c))
				if groups[l] == nil {
					groups[l] = &ByteSet{}
				}
				groups[l].add(c)
			}
		}
		if len(groups) > 1 {
			var ks []int
			for l := range groups {
				ks = append(ks, l)
			}
			sort.Ints(ks)
			var alts []func(*State)
			for _, l := range ks {
				b := *groups[l]
				alts = append(alts, func(n *State) { n.streams[st].set = b })
			}
			fork(alts...)
		}
		for l := range groups {
			label = l
		}
	}
	s.monStep(t, label)
	renamed := false
	if t.mon != nil {
		for _, n := range t.mon.Named() {
			if d, ok := t.dist[t.resolve(n.end)]; ok && d <= 0 && n.end != "H" {
				renamed = true
			}
		}
	}
	// shift
	set := t.set
	s.trace = &traceNode{up: s.trace, s: st, set: set}
	s.e.nAdvance++
	for n := range t.dist {
		t.dist[n]++
	}
	exact := map[string]bool{}
	if t.mon != nil {
		for _, n := range t.mon.Exact() {
			exact[t.resolve(n)] = true
		}
	}
	// positions move by one relative to the frontier
	hy := globalTab.pos(st, "H")
	declared := ""
	for n, d := range t.dist {
		if d == 1 && n != "Start" && t.alias[n] == "" {
			if declared == "" || n < declared {
				declared = n
			}
		}
	}
	byteRefs := map[*Sym]bool{}
	z := &subst{}
	z.lin = func(l *Lin) *Lin {
		r := l
		for _, x := range l.t {
			if x.y.s != st {
				continue
			}
			switch x.y.kind {
			case 'P':
				if x.y != hy {
					continue
				}
				if len(l.t) == 1 && x.k == 1 {
					if c := l.c - 1; c < 0 {
						return t.canonPos(c)
					}
					return l.plus(-1)
				}
				if declared != "" {
					// H_old = H_new-1 = declared + 0
					r = r.add(symLin(hy), -x.k).add(symLin(globalTab.pos(st, declared)), x.k)
				} else {
					r = r.plus(-x.k)
				}
			case 'B':
				if x.y.name == "H" {
					ny := t.canonByte(int64(x.y.off) - 1)
					if x.y.off == 0 {
						byteRefs[ny] = true
					}
					r = r.add(symLin(x.y), -x.k).add(symLin(ny), x.k)
				}
			}
		}
		return r
	}
	t.status = stUnknown
	t.set = ByteSet{}
	s.substAll(z)
	if len(byteRefs) > 0 || t.hist {
		ny := t.canonByte(-1)
		if !set.full() {
			s.facts["b:"+ny.key] = &Fact{bsym: ny, set: set}
		}
	}
	if renamed {
		s.renameNamed()
	}
	for n, d := range t.dist {
		if d > s.e.near && !exact[n] && !(n == "Start" && d < startKeep && !s.e.shortStart) {
			s.keepLengths(t, n, int64(d))
			delete(t.dist, n)
		}
	}
	s.collapse(t)
	s.steps = 0
}

// keepLengths re-expresses what is known about the length of a part whose end mark is about to fall out of sight.
func (s *State) keepLengths(t *Stream, end string, d int64) {
	if !strings.HasSuffix(end, "End") {
		return
	}
	from := globalTab.pos(t.id, strings.TrimSuffix(end, "End"))
	ey := globalTab.pos(t.id, end)
	for k, f := range s.facts {
		if f.lin == nil || len(f.lin.t) != 2 || len(f.ne) > 0 {
			continue
		}
		a, b := f.lin.t[0], f.lin.t[1]
		if b.y != from {
			a, b = b, a
		}
		if b.y != from || a.k != -b.k || a.k*a.k != 1 || a.y.kind != 'P' || a.y.s != t.id || a.y == ey {
			continue
		}
		off := int64(0) // a.y = end + d - off
		if a.y.name != "H" {
			x, ok := t.dist[a.y.name]
			if !ok {
				continue
			}
			off = int64(x)
		}
		c := a.k * (d - off)
		delete(s.facts, k)
		base := symLin(ey).mul(a.k).add(symLin(from), b.k)
		s.addInterval(base, satAdd(f.lo, -c), satAdd(f.hi, -c))
	}
}

// renameNamed gives complete decimal numbers their names everywhere.
func (s *State) renameNamed() {
	s.substAll(&subst{lin: func(l *Lin) *Lin {
		for _, x := range l.t {
			if x.y.kind == 'B' {
				return s.named(l)
			}
		}
		return l
	}})
}

func (t *Stream) resolve(n string) string {
	if a := t.alias[n]; a != "" {
		return a
	}
	return n
}

// monStep drives the reference automaton over the frontier byte (or the end).
func (s *State) monStep(t *Stream, label int) {
	if t.mon == nil {
		return
	}
	ctx := &MonCtx{s: s, t: t}
	if label == endLabel {
		if t.set == (ByteSet{1, 1, 1, 1}) { // end already processed
			return
		}
	}
	for _, a := range t.mon.Asks(ctx, label) {
		s.atom(a)
	}
	if b, ok := t.mon.(interface{ Before(ctx *MonCtx, label int) }); ok {
		b.Before(ctx, label)
	}
	ans := t.mon.Asks(ctx, label)
	var av []bool
	for _, a := range ans {
		av = append(av, s.facts["a:"+valKey(a)].val)
	}
	for _, m := range t.mon.Marks(label, av) {
		s.declare(t, m.name, m.off)
	}
	m := t.mon.Step(ctx, label, av)
	t.mon = m
	if label == endLabel {
		t.set = ByteSet{1, 1, 1, 1}
		s.collapse(t)
	}
}

// declare (re)defines a mark at frontier+off; the previous generation is renamed.
func (s *State) declare(t *Stream, name string, off int) {
	py := globalTab.pos(t.id, name)
	prev := globalTab.pos(t.id, name+"'")
	lost := globalTab.pos(t.id, "Lost")
	old := t.alias[name]
	if old != "" {
		delete(t.alias, name)
	}
	// anything aliased to this mark must be re-pointed: forbid (marks that coincide are aliased to the older one)
	ren := func(l *Lin) *Lin {
		for _, x := range l.t {
			if x.y.s != t.id {
				continue
			}
			if x.y.kind == 'P' && (x.y == py || x.y == prev) {
				n := prev
				if x.y == prev {
					n = lost
				}
				l = l.add(symLin(x.y), -x.k).add(symLin(n), x.k)
			} else if x.y.kind == 'B' && (x.y.name == name || x.y.name == name+"'") {
				n := name + "'"
				if x.y.name == n {
					n = "Lost"
				}
				l = l.add(symLin(x.y), -x.k).add(symLin(globalTab.byteAt(t.id, n, x.y.off)), x.k)
			}
		}
		return l
	}
	z := &subst{lin: func(l *Lin) *Lin {
		for _, x := range l.t {
			if x.y.s == t.id && (x.y.kind == 'P' && (x.y == py || x.y == prev) || x.y.kind == 'B' && (x.y.name == name || x.y.name == name+"'")) {
				// simultaneous renaming
				r := con(l.c)
				for _, u := range l.t {
					r = r.add(ren(symLin(u.y)), u.k)
				}
				return r
			}
		}
		return l
	}}
	if old == "" {
		s.substAll(z)
		if d, ok := t.dist[name]; ok {
			t.dist[name+"'"] = d
			delete(t.dist, name)
		} else {
			delete(t.dist, name+"'")
		}
		for a, b := range t.alias {
			if b == name {
				t.alias[a] = name + "'"
			} else if b == name+"'" {
				delete(t.alias, a)
			}
		}
	}
	for n, d := range t.dist {
		if d == -off && n != "Start" && t.alias[n] == "" && !strings.HasSuffix(n, "'") {
			t.alias[name] = n
			return
		}
	}
	t.dist[name] = -off
}

// posOf is the position of a mark.
func (s *State) posOf(st int, name string) *Lin {
	t := s.streams[st]
	name = t.resolve(name)
	if name == "Start" {
		return con(0)
	}
	return symLin(globalTab.pos(st, name))
}

// substAll rewrites the whole state.
func (s *State) substAll(z *subst) {
	for _, f := range s.frames {
		for k, v := range f.regs {
			if hasSyms(v) {
				f.regs[k] = z.do(v)
			}
		}
		for i := range f.defers {
			d := &f.defers[i]
			if len(d.args) > 0 {
				if n, ch := z.list(d.args); ch {
					d.args = n
				}
			}
			d.fn = z.do(d.fn)
		}
		for k, v := range f.tmp {
			f.tmp[k] = z.do(v)
		}
	}
	for id, o := range s.heap {
		if hasSyms(o.val) {
			if n := z.do(o.val); n != o.val {
				c := *o
				c.val = n
				s.heap[id] = &c
			}
		}
	}
	for _, t := range s.streams {
		if t.mon != nil {
			t.mon = t.mon.Subst(z)
		}
	}
	if s.ret0 != nil {
		s.ret0 = z.do(s.ret0)
	}
	for i, v := range s.expect {
		s.expect[i] = z.do(v)
	}
	for k, v := range s.flags {
		s.flags[k] = z.do(v)
	}
	if len(s.facts) > 0 {
		nf := make(map[string]*Fact, len(s.facts))
		for k, f := range s.facts {
			switch {
			case f.lin != nil:
				n := z.linear(f.lin)
				if n == f.lin {
					nf[k] = f
					continue
				}
				g := *f
				g.lin = &Lin{t: n.t}
				if g.lo > minInt {
					g.lo -= n.c
				}
				if g.hi < maxInt {
					g.hi -= n.c
				}
				g.ne = nil
				for _, x := range f.ne {
					g.ne = append(g.ne, x-n.c)
				}
				if len(g.lin.t) == 0 {
					continue
				}
				nf["l:"+g.lin.key()] = &g
			case f.bsym != nil:
				n := z.lin(symLin(f.bsym))
				if y, c, ok := n.single(); ok && c == 0 && y.kind == 'B' {
					g := *f
					g.bsym = y
					if o := nf["b:"+y.key]; o != nil {
						g.set = g.set.and(o.set)
					}
					nf["b:"+y.key] = &g
				}
			case f.atom != nil:
				n, ok := z.do(f.atom).(*TermV)
				if !ok {
					continue
				}
				if n == f.atom {
					nf[k] = f
					continue
				}
				g := *f
				g.atom = n
				nf["a:"+valKey(n)] = &g
			}
		}
		s.facts = nf
	}
}

// replaceVal rewrites every occurrence of values equal to old (by key) into new.
func (s *State) replaceVal(old, new Val) {
	k := valKey(old)
	z := &subst{}
	z.val = func(v Val) (Val, bool) {
		switch v.(type) {
		case *Str, *ListC, *MapC, *TermV, TokV:
			if valKey(v) == k {
				return new, true
			}
		}
		return nil, false
	}
	z.lin = func(l *Lin) *Lin { return l }
	s.substAll(z)
}

// collapse synchronises registers of the reference automaton with equal values of the state.
func (s *State) collapse(t *Stream) {
	if t.mon == nil {
		return
	}
	for _, r := range t.mon.Regs() {
		tok := TokV{r}
		v := t.mon.Reg(r)
		if v == nil {
			continue
		}
		if m, ok := v.(*MapC); ok && len(m.ops) == 0 {
			continue
		}
		if l, ok := v.(*ListC); ok && len(l.e) == 0 {
			continue
		}
		if x, ok := v.(*Str); ok {
			if len(x.p) == 0 || len(x.p) == 1 && x.p[0].kind == 'T' {
				if _, ok := x.p0term().(TokV); ok || len(x.p) == 0 {
					continue
				}
			}
			if _, ok := x.isLit(); ok {
				continue
			}
		}
		s.collapseReg(t, r, tok)
	}
}

func (x *Str) p0term() Val {
	if len(x.p) == 0 {
		return nil
	}
	return x.p[0].term
}

func (s *State) collapseReg(t *Stream, r string, tok TokV) {
	prev := TokV{r + "'"}
	lost := TokV{"Lost"}
	// (c),(a): age existing tokens
	z := &subst{lin: func(l *Lin) *Lin { return l }}
	z.val = func(v Val) (Val, bool) {
		if k, ok := v.(TokV); ok {
			if k == tok {
				return prev, true
			}
			if k == prev {
				return lost, true
			}
		}
		return nil, false
	}
	s.substAll(z)
	v := t.mon.Reg(r)
	want := s.deepKey(v)
	var content Val
	switch x := v.(type) {
	case *MapC:
		content = &MapC{tok: tok}
	case *ListC:
		content = &ListC{tok: tok}
	case *Str:
		content = &Str{p: []Part{{kind: 'T', term: tok}}}
		_ = x
	}
	// (b): heap objects and strings
	if v0, ok := v.(*Str); ok {
		zz := &subst{lin: func(l *Lin) *Lin { return l }}
		zz.val = func(v Val) (Val, bool) {
			if x, ok := v.(*Str); ok {
				if x.key() == want {
					return content, true
				}
				if y := x.dropPrefix(v0); y != nil {
					return concat(content.(*Str), y), true
				}
				return x, true
			}
			return nil, false
		}
		s.substAll(zz)
	} else {
		for id, o := range s.heap {
			switch o.val.(type) {
			case *MapC, *ListC:
				if s.deepKey(o.val) == want {
					c := *o
					c.val = content
					s.heap[id] = &c
					if _, ok := o.val.(*ListC); ok {
						s.wholeList(id)
					}
				}
			}
		}
	}
	t.mon = t.mon.SetReg(r, content)
}

// dropPrefix is x without the leading text p, nil if it does not begin with it.
func (x *Str) dropPrefix(p *Str) *Str {
	n := len(p.p)
	if n == 0 || len(x.p) < n {
		return nil
	}
	for i := 0; i < n-1; i++ {
		if valKey(&Str{p: x.p[i : i+1]}) != valKey(&Str{p: p.p[i : i+1]}) {
			return nil
		}
	}
	a, b := x.p[n-1], p.p[n-1]
	r := &Str{}
	switch {
	case valKey(&Str{p: []Part{a}}) == valKey(&Str{p: []Part{b}}):
	case a.kind == 'L' && b.kind == 'L' && strings.HasPrefix(a.lit, b.lit):
		r.push(Part{kind: 'L', lit: a.lit[len(b.lit):]})
	default:
		return nil
	}
	for _, q := range x.p[n:] {
		r.push(q)
	}
	return r
}

// wholeList marks the slices over an abstract list as covering all of it.
func (s *State) wholeList(id int) {
	z := &subst{lin: func(l *Lin) *Lin { return l }}
	z.val = func(v Val) (Val, bool) {
		if x, ok := v.(*SliceV); ok && x.obj == id && x.off.isConst() && x.off.c == 0 {
			return &SliceV{id, con(0), con(-1), con(-1)}, true
		}
		return nil, false
	}
	s.substAll(z)
}

// deepKey is the key of a value with references to maps replaced by their contents.
func (s *State) deepKey(v Val) string {
	z := &subst{lin: func(l *Lin) *Lin { return l }}
	depth := 0
	z.val = func(v Val) (Val, bool) {
		if m, ok := v.(MapV); ok && depth < 4 {
			depth++
			defer func() { depth-- }()
			return z.do(s.obj(m.obj).val), true
		}
		return nil, false
	}
	return valKey(z.do(v))
}

// comparing integers -----------------------------------------------------------

func opHolds(op token.Token, d int64) bool {
	switch op {
	case token.EQL:
		return d == 0
	case token.NEQ:
		return d != 0
	case token.LSS:
		return d < 0
	case token.LEQ:
		return d <= 0
	case token.GTR:
		return d > 0
	case token.GEQ:
		return d >= 0
	}
	panic("op")
}

// rangeHolds decides "d op 0" for all d in [lo,hi].
func rangeHolds(op token.Token, lo, hi int64) (res, known bool) {
	switch op {
	case token.EQL:
		if lo == 0 && hi == 0 {
			return true, true
		}
		if lo > 0 || hi < 0 {
			return false, true
		}
	case token.NEQ:
		r, k := rangeHolds(token.EQL, lo, hi)
		return !r, k
	case token.LSS:
		if hi < 0 {
			return true, true
		}
		if lo >= 0 {
			return false, true
		}
	case token.LEQ:
		if hi <= 0 {
			return true, true
		}
		if lo > 0 {
			return false, true
		}
	case token.GTR:
		r, k := rangeHolds(token.LEQ, lo, hi)
		return !r, k
	case token.GEQ:
		r, k := rangeHolds(token.LSS, lo, hi)
		return !r, k
	}
	return false, false
}

func satAdd(a, b int64) int64 {
	if a <= minInt || b <= minInt {
		return minInt
	}
	if a >= maxInt || b >= maxInt {
		return maxInt
	}
	return a + b
}
func satMul(k, a int64) int64 {
	if k == 0 {
		return 0
	}
	if a <= minInt || a >= maxInt {
		if (a > 0) == (k > 0) {
			return maxInt
		}
		return minInt
	}
	return k * a
}

// lbPos is a lower bound of x - y for positions of one stream.
func (s *State) lbPos(x, y *Sym, depth int, seen map[*Sym]bool) int64 {
	if x == y {
		return 0
	}
	best := int64(minInt)
	up := func(v int64) {
		if v > best {
			best = v
		}
	}
	t := s.streams[x.s]
	if x.name == "End" && y.name == "H" {
		if t.status == stByte {
			up(1)
		} else {
			up(0)
		}
	}
	if x.name == "H" && y.name != "End" && y.name != "H" && y.name != "Lost" {
		if _, ok := t.dist[y.name]; !ok {
			up(int64(s.e.near) + 1)
		} else {
			up(int64(t.dist[y.name]))
		}
	}
	if y.name == "H" && x.name != "End" {
		if d, ok := t.dist[x.name]; ok {
			up(int64(-d))
		}
	}
	if t.mon != nil && x.name != "End" && y.name != "End" {
		if lo, _, ok := t.mon.Range(x.name, y.name); ok {
			up(lo)
		}
		if _, hi, ok := t.mon.Range(y.name, x.name); ok {
			up(-hi)
		}
	}
	d := symLin(x).sub(symLin(y))
	if f := s.facts["l:"+d.key()]; f != nil {
		up(f.lo)
	}
	if f := s.facts["l:"+d.mul(-1).key()]; f != nil {
		up(-f.hi)
	}
	if depth > 0 {
		seen[x] = true
		for _, z := range s.posSyms(x.s) {
			if z == y || seen[z] {
				continue
			}
			a := s.lbPos(x, z, 0, seen)
			if a <= minInt {
				continue
			}
			b := s.lbPos(z, y, depth-1, seen)
			if b > minInt {
				up(satAdd(a, b))
			}
		}
		delete(seen, x)
	}
	return best
}

// posSyms lists the interesting positions of a stream.
func (s *State) posSyms(st int) []*Sym {
	m := map[*Sym]bool{globalTab.pos(st, "H"): true, globalTab.pos(st, "End"): true}
	for n := range s.streams[st].dist {
		if n != "Start" {
			m[globalTab.pos(st, n)] = true
		}
	}
	for _, f := range s.facts {
		if f.lin != nil {
			for _, x := range f.lin.t {
				if x.y.kind == 'P' && x.y.s == st {
					m[x.y] = true
				}
			}
		}
	}
	if mon := s.streams[st].mon; mon != nil {
		for _, n := range mon.RangeMarks() {
			m[globalTab.pos(st, n)] = true
		}
	}
	var r []*Sym
	for y := range m {
		r = append(r, y)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].key < r[j].key })
	return r
}

// interval of a (normalised) linear form.
func (s *State) interval(d *Lin) (int64, int64) {
	if d.isConst() {
		return d.c, d.c
	}
	base := &Lin{t: d.t}
	lo, hi := int64(minInt), int64(maxInt)
	if f := s.facts["l:"+base.key()]; f != nil {
		lo, hi = f.lo, f.hi
	}
	neg := base.mul(-1)
	if f := s.facts["l:"+neg.key()]; f != nil {
		if -f.hi > lo {
			lo = -f.hi
		}
		if -f.lo < hi {
			hi = -f.lo
		}
	}
	if len(d.t) == 2 { // what is known in terms of a mark near the frontier
		for _, x := range d.t {
			if x.y.kind != 'P' || x.y.name != "H" || x.k*x.k != 1 {
				continue
			}
			st := s.streams[x.y.s]
			for n, dd := range st.dist {
				if n == "Start" || st.alias[n] != "" {
					continue
				}
				b := base.add(symLin(x.y), -x.k).add(symLin(globalTab.pos(st.id, n)), x.k)
				c := x.k * int64(dd) // base = b + c
				if f := s.facts["l:"+b.key()]; f != nil {
					lo, hi = max64(lo, satAdd(f.lo, c)), min64(hi, satAdd(f.hi, c))
				}
				if f := s.facts["l:"+b.mul(-1).key()]; f != nil {
					lo, hi = max64(lo, satAdd(-f.hi, c)), min64(hi, satAdd(-f.lo, c))
				}
			}
		}
	}
	// structural interval: pair up positions
	type pp struct {
		y *Sym
		k int64
	}
	var pos, negp []pp
	slo, shi := int64(0), int64(0)
	for _, t := range d.t {
		if t.y.kind == 'P' {
			if t.k > 0 {
				pos = append(pos, pp{t.y, t.k})
			} else {
				negp = append(negp, pp{t.y, -t.k})
			}
			continue
		}
		a, b := t.y.lo, t.y.hi
		if t.y.kind == 'N' {
			for _, st := range s.streams {
				if st.mon == nil {
					continue
				}
				for _, n := range st.mon.Named() {
					if k := st.digits(n); n.sym == t.y && k > 0 && k < 18 {
						if top := pow10(k) - 1; top < b {
							b = top
						}
						if a < 0 {
							a = 0
						}
					}
				}
			}
		}
		if t.y.kind == 'B' {
			set := s.setOf(t.y)
			a, b = 255, 0
			for c := 0; c < 256; c++ {
				if set.has(c) {
					if int64(c) < a {
						a = int64(c)
					}
					if int64(c) > b {
						b = int64(c)
					}
				}
			}
		} else if f := s.facts["l:"+t.y.key]; f != nil {
			if f.lo > a {
				a = f.lo
			}
			if f.hi < b {
				b = f.hi
			}
		}
		if t.k < 0 {
			a, b = b, a
		}
		slo = satAdd(slo, satMul(t.k, a))
		shi = satAdd(shi, satMul(t.k, b))
	}
	for len(pos) > 0 && len(negp) > 0 && pos[0].y.s == negp[0].y.s && pos[0].k == negp[0].k {
		l := s.lbPos(pos[0].y, negp[0].y, 3, map[*Sym]bool{})
		u := s.lbPos(negp[0].y, pos[0].y, 3, map[*Sym]bool{})
		slo = satAdd(slo, satMul(pos[0].k, l))
		shi = satAdd(shi, satMul(-pos[0].k, u))
		pos, negp = pos[1:], negp[1:]
	}
	exact := func(y *Sym) (int64, bool) { // a frontier that is still near the start
		if y.name != "H" || !s.streams[y.s].started {
			return 0, false
		}
		d, ok := s.streams[y.s].dist["Start"]
		return int64(d), ok
	}
	for _, p := range pos {
		if v, ok := exact(p.y); ok {
			slo, shi = satAdd(slo, v*p.k), satAdd(shi, v*p.k)
			continue
		}
		slo, shi = satAdd(slo, 0), maxInt
		if p.y.name == "H" || s.streams[p.y.s].mon != nil {
			slo = satAdd(slo, s.minAbs(p.y)*p.k)
		}
	}
	for _, p := range negp {
		if v, ok := exact(p.y); ok {
			slo, shi = satAdd(slo, -v*p.k), satAdd(shi, -v*p.k)
			continue
		}
		slo = minInt
	}
	if slo > lo {
		lo = slo
	}
	if shi < hi {
		hi = shi
	}
	return satAdd(lo, d.c), satAdd(hi, d.c)
}

// minAbs is a lower bound of a position's absolute value.
func (s *State) minAbs(y *Sym) int64 {
	t := s.streams[y.s]
	if y.name == "H" {
		if d, ok := t.dist["Start"]; ok {
			return int64(d)
		}
		if s.e.shortStart {
			return int64(s.e.near) + 1
		}
		return startKeep
	}
	if t.mon != nil {
		if lo, _, ok := t.mon.Range(y.name, "Start"); ok {
			return lo
		}
	}
	return 0
}

// cmp decides a op b, forking when needed.
func (s *State) cmp(op token.Token, a, b *Lin) bool {
	for {
		d := s.norm(a.sub(b))
		if d.isConst() {
			return opHolds(op, d.c)
		}
		// a single byte
		if len(d.t) == 1 && d.t[0].y.kind == 'B' {
			y, k := d.t[0].y, d.t[0].k
			set := s.setOf(y)
			var tr, fa ByteSet
			for c := 0; c < 256; c++ {
				if set.has(c) {
					if opHolds(op, k*int64(c)+d.c) {
						tr.add(c)
					} else {
						fa.add(c)
					}
				}
			}
			if fa.empty() {
				return true
			}
			if tr.empty() {
				return false
			}
			fork(func(n *State) { n.narrow(y, tr) }, func(n *State) { n.narrow(y, fa) })
		}
		lo, hi := s.interval(d)
		if r, ok := rangeHolds(op, lo, hi); ok {
			return r
		}
		// excluded single values
		if op == token.EQL || op == token.NEQ {
			base := &Lin{t: d.t}
			if f := s.facts["l:"+base.key()]; f != nil {
				for _, x := range f.ne {
					if x == -d.c {
						return op == token.NEQ
					}
				}
			}
			if f := s.facts["l:"+base.mul(-1).key()]; f != nil {
				for _, x := range f.ne {
					if x == d.c {
						return op == token.NEQ
					}
				}
			}
		}
		// frontier against end of stream
		if st, ok := endVsHead(d); ok {
			t := s.streams[st]
			if !t.started || t.status == stUnknown {
				s.query(st)
				continue
			}
			if t.status == stByte {
				s.advance(st)
				// the operands moved: re-execute the instruction on the refined state
				panic(&forkReq{alts: []func(*State){func(*State) {}}})
			}
		}
		if st, ok := endVsConst(d); ok {
			t := s.streams[st]
			if !t.started {
				s.query(st)
				continue
			}
			if dd, ok := t.dist["Start"]; ok {
				// End - c = (End - H) + (dd - c)
				k := d.t[0].k
				d2 := d.add(s.H(st), -k).plus(k * int64(dd))
				lo, hi := s.interval(d2)
				if r, ok := rangeHolds(op, lo, hi); ok {
					return r
				}
				if t.status == stUnknown {
					s.query(st)
					continue
				}
				if t.status == stByte {
					s.advance(st)
					panic(&forkReq{alts: []func(*State){func(*State) {}}})
				}
			}
		}
		s.splitOn(op, d)
	}
}

// endVsHead recognises End - H + c forms.
func endVsHead(d *Lin) (int, bool) {
	if len(d.t) != 2 {
		return 0, false
	}
	a, b := d.t[0], d.t[1]
	if a.y.kind != 'P' || b.y.kind != 'P' || a.y.s != b.y.s || a.k+b.k != 0 || a.k != 1 && a.k != -1 {
		return 0, false
	}
	n := [2]string{a.y.name, b.y.name}
	if n == [2]string{"End", "H"} || n == [2]string{"H", "End"} {
		return a.y.s, true
	}
	return 0, false
}

func endVsConst(d *Lin) (int, bool) {
	if len(d.t) == 1 && d.t[0].y.kind == 'P' && d.t[0].y.name == "End" {
		return d.t[0].y.s, true
	}
	return 0, false
}

// splitOn forks on the sign of d.
func (s *State) splitOn(op token.Token, d *Lin) {
	if os.Getenv("DEBUG_SPLIT") != "" {
		fmt.Fprintln(os.Stderr, "split on", d.key(), op)
	}
	for _, t := range d.t {
		if t.y.kind == 'P' && t.y.name == "Lost" {
			s.undecided("comparison of a position that is not anchored to any part of the grammar: %s", d.key())
		}
	}
	// x == c for a named or term symbol: substitute
	base := &Lin{t: d.t}
	c := -d.c
	le := func(v int64) func(*State) {
		return func(n *State) { n.addInterval(base, minInt, v) }
	}
	ge := func(v int64) func(*State) {
		return func(n *State) { n.addInterval(base, v, maxInt) }
	}
	eq := func(n *State) { n.addInterval(base, c, c) }
	switch op {
	case token.EQL, token.NEQ:
		lo, hi := s.interval(base)
		if lo == c {
			fork(eq, ge(c+1))
		}
		if hi == c {
			fork(eq, le(c-1))
		}
		fork(eq, func(n *State) {
			k := "l:" + base.key()
			g := &Fact{lin: base, lo: minInt, hi: maxInt}
			if f := n.facts[k]; f != nil {
				*g = *f
			}
			g.ne = append(append([]int64(nil), g.ne...), c)
			sort.Slice(g.ne, func(i, j int) bool { return g.ne[i] < g.ne[j] })
			n.facts[k] = g
		})
	case token.LSS, token.GEQ:
		fork(le(c-1), ge(c))
	case token.LEQ, token.GTR:
		fork(le(c), ge(c+1))
	}
}

func (s *State) addInterval(base *Lin, lo, hi int64) {
	k := "l:" + base.key()
	g := &Fact{lin: base, lo: lo, hi: hi}
	if f := s.facts[k]; f != nil {
		g.ne = f.ne
		if f.lo > g.lo {
			g.lo = f.lo
		}
		if f.hi < g.hi {
			g.hi = f.hi
		}
	}
	for ch := true; ch; {
		ch = false
		for _, x := range g.ne {
			if x == g.lo {
				g.lo++
				ch = true
			}
			if x == g.hi {
				g.hi--
				ch = true
			}
		}
	}
	s.facts[k] = g
	if g.lo == g.hi && len(base.t) == 1 && (base.t[0].k == 1) && (base.t[0].y.kind == 'N' || base.t[0].y.kind == 'T') {
		// substitute the constant
		y, v := base.t[0].y, g.lo
		s.substAll(&subst{lin: func(l *Lin) *Lin {
			for _, x := range l.t {
				if x.y == y {
					return l.add(symLin(y), -x.k).plus(x.k * v)
				}
			}
			return l
		}})
		s.facts[k] = g // the term may be formed again
	}
}

// atom decides an opaque predicate.
func (s *State) atom(a *TermV) bool {
	k := "a:" + valKey(a)
	if f := s.facts[k]; f != nil {
		return f.val
	}
	fork(func(n *State) { n.setAtom(a, true) }, func(n *State) { n.setAtom(a, false) })
	return false
}

func (s *State) setAtom(a *TermV, v bool) {
	s.facts["a:"+valKey(a)] = &Fact{atom: a, val: v}
	s.trace = &traceNode{up: s.trace, s: -1, note: fmt.Sprintf("%s=%v", valKey(a), v)}
}

func (s *State) knownAtom(a *TermV) (bool, bool) {
	if f := s.facts["a:"+valKey(a)]; f != nil {
		return f.val, true
	}
	return false, false
}

// strings -----------------------------------------------------------

func (s *State) partLen(p Part) *Lin {
	switch p.kind {
	case 'L':
		return con(int64(len(p.lit)))
	case 'S':
		if isLost(p.a) || isLost(p.b) {
			s.undecided("length of a text that is not anchored to any part of the grammar")
		}
		return s.norm(p.b.sub(p.a))
	case 'B':
		return con(1)
	case 'Z':
		return p.a
	case 'D':
		return symLin(globalTab.term(&TermV{op: "declen", args: []Val{p.a}}, 1, 20))
	}
	if t, ok := p.term.(*TermV); ok && t.op == "octets" {
		return t.args[0].(*Lin)
	}
	if k, ok := p.term.(TokV); ok && s.e.hooks != nil && s.e.hooks.tokLen[k.name] != nil {
		return s.e.hooks.tokLen[k.name]
	}
	if t, ok := p.term.(*TermV); ok && t.op == "sub" {
		return t.args[2].(*Lin).sub(t.args[1].(*Lin))
	}
	l := symLin(globalTab.term(&TermV{op: "len", args: []Val{p.term}}, 0, 1<<40))
	if f := s.facts["l:"+l.key()]; f != nil && f.lo == f.hi {
		return con(f.lo)
	}
	return l
}

func (s *State) strLen(x *Str) *Lin {
	l := con(0)
	for _, p := range x.p {
		l = l.add(s.partLen(p), 1)
	}
	return l
}

// cut splits x at offset at (0 <= at <= len must hold).
func (s *State) cut(x *Str, at *Lin) (*Str, *Str) {
	at = s.norm(at)
	left, right := &Str{}, &Str{}
	i := 0
	for ; i < len(x.p); i++ {
		if at.isConst() && at.c == 0 {
			break
		}
		l := s.partLen(x.p[i])
		d := s.norm(at.sub(l))
		if d.isConst() && d.c >= 0 || !d.isConst() && s.cmp(token.GEQ, at, l) {
			left.push(x.p[i])
			at = d
			continue
		}
		// at < l; at may be zero
		p := x.p[i]
		if !at.isConst() && p.kind != 'T' && s.cmp(token.EQL, at, con(0)) {
			break
		}
		switch p.kind {
		case 'L':
			if !at.isConst() {
				s.undecided("cut of a literal at symbolic offset %s", at.key())
			}
			left.push(Part{kind: 'L', lit: p.lit[:at.c]})
			right.push(Part{kind: 'L', lit: p.lit[at.c:]})
		case 'S':
			m := s.canonLin(p.a.add(at, 1))
			left.push(Part{kind: 'S', s: p.s, a: p.a, b: m})
			right.push(Part{kind: 'S', s: p.s, a: m, b: p.b})
		case 'Z':
			left.push(Part{kind: 'Z', a: at})
			right.push(Part{kind: 'Z', a: p.a.sub(at)})
		case 'T':
			t, ok := p.term.(*TermV)
			if k, lost := p.term.(TokV); lost && isLostName(k.name) {
				t = &TermV{op: "segment", args: []Val{k}}
			} else if !ok || t.op != "segment" && t.op != "sub" {
				s.undecided("cut inside %s", valKey(x))
			}
			lo, hi := con(0), l
			inner := Val(t)
			if t.op == "sub" {
				inner, lo, hi = t.args[0], t.args[1].(*Lin), t.args[2].(*Lin)
			}
			mid := lo.add(at, 1)
			left.push(Part{kind: 'T', term: &TermV{op: "sub", args: []Val{inner, lo, mid}}})
			right.push(Part{kind: 'T', term: &TermV{op: "sub", args: []Val{inner, mid, hi}}})
		default:
			s.undecided("cut inside %s", valKey(x))
		}
		i++
		break
	}
	for ; i < len(x.p); i++ {
		right.push(x.p[i])
	}
	return left, right
}

// canonLin canonicalises a position form.
func (s *State) canonLin(l *Lin) *Lin {
	n := s.norm(l)
	if y, c, ok := n.single(); ok && y.kind == 'P' && y.name == "H" {
		if c < 0 {
			return s.streams[y.s].canonPos(c)
		}
		return n
	}
	return l
}

func (s *State) sliceStr(x *Str, lo, hi *Lin) *Str {
	// hi first
	l, _ := s.cut(x, hi)
	_, r := s.cut(l, lo)
	return r
}

func (s *State) indexStr(x *Str, i *Lin) *Lin {
	_, r := s.cut(x, i)
	if len(r.p) == 0 {
		s.violate("panic", "index out of range")
	}
	p := r.p[0]
	switch p.kind {
	case 'L':
		return con(int64(p.lit[0]))
	case 'S':
		return s.readByte(p.s, p.a)
	case 'B':
		return p.a
	case 'Z':
		return con(0)
	}
	s.undecided("byte of %s", valKey(x))
	return nil
}

// readByte reads the byte at a position already known to be inside the stream.
func (s *State) readByte(st int, pos *Lin) *Lin {
	if s.streams[st].started || !pos.isConst() {
		if c, ok := s.rel(pos, st); ok && c >= 0 {
			t := s.streams[st]
			if t.status == stUnknown {
				s.query(st)
			}
			if t.status == stEnd {
				s.violate("panic", "read past the end of input")
			}
			if c > 0 {
				s.advance(st)
				panic(&forkReq{alts: []func(*State){func(*State) {}}})
			}
		}
	} else {
		s.query(st)
		panic(&forkReq{alts: []func(*State){func(*State) {}}})
	}
	return s.byteSym(st, pos)
}

func (s *State) setByte(x *Str, i *Lin, v Val) *Str {
	l, r := s.cut(x, i)
	if len(r.p) == 0 {
		s.violate("panic", "index out of range")
	}
	_, rest := s.cut(r, con(1))
	b, ok := v.(*Lin)
	if !ok {
		s.undecided("store of %T as byte", v)
	}
	return concat(l, &Str{p: []Part{{kind: 'B', a: b}}}, rest)
}

func isLost(l *Lin) bool {
	for _, t := range l.t {
		if (t.y.kind == 'P' || t.y.kind == 'B') && t.y.name == "Lost" {
			return true
		}
	}
	return false
}

func (x *Str) lost() bool {
	for _, p := range x.p {
		if p.a != nil && isLost(p.a) || p.b != nil && isLost(p.b) {
			return true
		}
		if p.term != nil && hasLostTok(p.term) {
			return true
		}
	}
	return false
}

// eqStr decides string equality.
func (s *State) eqStr(a, b *Str) bool {
	for _, x := range []*Str{a, b} {
		if x.lost() {
			s.undecided("comparison of a text that is not anchored to any part of the grammar")
		}
		for _, p := range x.p {
			if st, ok := p.term.(StaleV); ok {
				s.note("history", "comparison with %s, a leftover of an earlier call", st.name)
				return s.atom(&TermV{op: "leftover", args: []Val{lit(st.name + " compared as text")}})
			}
		}
	}
	if a.key() == b.key() {
		return true
	}
	la, oka := a.isLit()
	lb, okb := b.isLit()
	if oka && okb {
		return la == lb
	}
	if okb {
		a, b, la, oka, lb, okb = b, a, lb, true, la, oka
	}
	if oka {
		// literal against symbolic
		if len(b.p) == 1 && b.p[0].kind == 'T' {
			if tv, ok := b.p[0].term.(*TermV); ok && (tv.op == "upper" || tv.op == "lower") {
				return s.eqFold(tv.args[0].(*Str), la, tv.op)
			}
		}
		n := s.strLen(b)
		if len(la) == 1 && len(b.p) == 1 && b.p[0].kind == 'S' && s.streams[b.p[0].s].mon != nil {
			// one question instead of two when nothing is known
			at := &TermV{op: "streq", args: []Val{b, a}}
			if r, ok := s.knownAtom(at); ok {
				return r
			}
			if lo, hi := s.interval(s.norm(n)); lo <= 1 && hi > 1 {
				y := s.firstByte(b)
				if y != nil {
					if set := s.setOf(y); !set.has(int(la[0])) {
						return false
					}
				}
				fork(func(m *State) {
					m.setAtom(at, true)
					d := m.norm(n)
					m.addInterval(&Lin{t: d.t}, 1-d.c, 1-d.c)
					if y != nil {
						var one ByteSet
						one.add(int(la[0]))
						m.facts["b:"+y.key] = &Fact{bsym: y, set: one}
					}
				}, func(m *State) { m.setAtom(at, false) })
			}
		}
		if !s.cmp(token.EQL, n, con(int64(len(la)))) {
			return false
		}
		rest := b
		for i := 0; i < len(la); i++ {
			if len(rest.p) == 1 && rest.p[0].kind == 'T' || len(rest.p) > 0 && rest.p[0].kind == 'D' {
				break
			}
			c := s.indexStr(rest, con(0))
			if !s.cmp(token.EQL, c, con(int64(la[i]))) {
				return false
			}
			_, rest = s.cut(rest, con(1))
			if i == len(la)-1 {
				return true
			}
		}
		if len(la) == 0 {
			return true
		}
		return s.atom(&TermV{op: "streq", args: []Val{a, b}})
	}
	// equal prefixes
	if len(a.p) > 0 && len(b.p) > 0 {
		for len(a.p) > 0 && len(b.p) > 0 && valKey(&Str{p: a.p[:1]}) == valKey(&Str{p: b.p[:1]}) {
			a, b = &Str{p: a.p[1:]}, &Str{p: b.p[1:]}
		}
		if len(a.p) == 0 || len(b.p) == 0 {
			return s.cmp(token.EQL, s.strLen(a), s.strLen(b))
		}
	}
	ka, kb := a.key(), b.key()
	// slices of one stream between positions that are equal
	if len(a.p) == 1 && len(b.p) == 1 && a.p[0].kind == 'S' && b.p[0].kind == 'S' && a.p[0].s == b.p[0].s {
		if s.norm(a.p[0].a.sub(b.p[0].a)).isConst() && s.norm(a.p[0].b.sub(b.p[0].b)).isConst() {
			if s.norm(a.p[0].a.sub(b.p[0].a)).c == 0 && s.norm(a.p[0].b.sub(b.p[0].b)).c == 0 {
				return true
			}
		}
	}
	if ka > kb {
		a, b = b, a
	}
	return s.atom(&TermV{op: "streq", args: []Val{a, b}})
}

// firstByte is the symbol of the first byte of a slice of a stream, if it is one.
func (s *State) firstByte(x *Str) *Sym {
	l := s.byteSym(x.p[0].s, x.p[0].a)
	if y, c, ok := l.single(); ok && c == 0 && y.kind == 'B' && y.name != "H" && y.name != "Lost" {
		return y
	}
	return nil
}

// infeasible says whether what is known contradicts that a text differs from a one byte literal.
func (s *State) infeasible() bool {
	for _, f := range s.facts {
		if f.atom == nil || f.val || f.atom.op != "streq" {
			continue
		}
		x, ok1 := f.atom.args[0].(*Str)
		l, ok2 := f.atom.args[1].(*Str)
		if !ok1 || !ok2 || len(x.p) != 1 || x.p[0].kind != 'S' || x.lost() {
			continue
		}
		c, ok := l.isLit()
		if !ok || len(c) != 1 {
			continue
		}
		y := s.firstByte(x)
		if y == nil {
			continue
		}
		set := s.setOf(y)
		if !set.has(int(c[0])) || set.count() != 1 {
			continue
		}
		if lo, hi := s.interval(s.norm(x.p[0].b.sub(x.p[0].a))); lo == 1 && hi == 1 {
			return true
		}
	}
	return false
}

// eqFold decides upper(x)==l (or lower) for ASCII literals whose letters have no non-ASCII case variants.
func (s *State) eqFold(x *Str, l, op string) bool {
	for i := 0; i < len(l); i++ {
		c := l[i]
		if c >= 0x80 || strings.IndexByte("iIsSkK", c) >= 0 {
			s.undecided("case folding of %q", l)
		}
		if op == "upper" && c >= 'a' && c <= 'z' || op == "lower" && c >= 'A' && c <= 'Z' {
			return false
		}
	}
	if !s.cmp(token.EQL, s.strLen(x), con(int64(len(l)))) {
		return false
	}
	for i := 0; i < len(l); i++ {
		b := s.indexStr(x, con(int64(i)))
		c := l[i]
		o := c
		if c >= 'a' && c <= 'z' {
			o = c - 32
		} else if c >= 'A' && c <= 'Z' {
			o = c + 32
		}
		if s.cmp(token.EQL, b, con(int64(c))) {
			continue
		}
		if o != c && s.cmp(token.EQL, b, con(int64(o))) {
			continue
		}
		return false
	}
	return true
}
