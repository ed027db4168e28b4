package main

// Abstract values of the analysis. All values are immutable.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- symbols

// Sym is an interned integer-valued symbol.
//
//	kind 'P': a position of stream s: name is "H" (the frontier), "End" or a grammar mark
//	kind 'B': the byte of stream s at position name+off
//	kind 'N': a named quantity with static range [lo,hi]
//	kind 'T': an opaque pure integer term
type Sym struct {
	key    string
	kind   byte
	s      int
	name   string
	off    int
	lo, hi int64
	term   *TermV
}

const (
	minInt = -(int64(1) << 60)
	maxInt = int64(1) << 60
)

type symTab struct{ m map[string]*Sym }

func newSymTab() *symTab { return &symTab{m: map[string]*Sym{}} }

func (t *symTab) pos(s int, name string) *Sym {
	k := "P" + strconv.Itoa(s) + ":" + name
	if y := t.m[k]; y != nil {
		return y
	}
	y := &Sym{key: k, kind: 'P', s: s, name: name, lo: 0, hi: maxInt}
	t.m[k] = y
	return y
}

func (t *symTab) byteAt(s int, name string, off int) *Sym {
	k := "B" + strconv.Itoa(s) + ":" + name + "+" + strconv.Itoa(off)
	if y := t.m[k]; y != nil {
		return y
	}
	y := &Sym{key: k, kind: 'B', s: s, name: name, off: off, lo: 0, hi: 255}
	t.m[k] = y
	return y
}

func (t *symTab) named(name string, lo, hi int64) *Sym {
	k := "N:" + name
	if y := t.m[k]; y != nil {
		return y
	}
	y := &Sym{key: k, kind: 'N', name: name, lo: lo, hi: hi}
	t.m[k] = y
	return y
}

func (t *symTab) term(tv *TermV, lo, hi int64) *Sym {
	k := "T:" + valKey(tv)
	if y := t.m[k]; y != nil {
		// the range has to hold wherever the term occurs
		if lo < y.lo {
			y.lo = lo
		}
		if hi > y.hi {
			y.hi = hi
		}
		return y
	}
	y := &Sym{key: k, kind: 'T', term: tv, lo: lo, hi: hi}
	t.m[k] = y
	return y
}

// ---------------------------------------------------------------- linear forms

type lterm struct {
	k int64
	y *Sym
}

// Lin is an integer value c + sum k*sym.
type Lin struct {
	c int64
	t []lterm
}

func con(c int64) *Lin       { return &Lin{c: c} }
func symLin(y *Sym) *Lin     { return &Lin{t: []lterm{{1, y}}} }
func (l *Lin) isConst() bool { return len(l.t) == 0 }

func (l *Lin) add(o *Lin, k int64) *Lin {
	if k == 0 {
		return l
	}
	if len(o.t) == 0 {
		if o.c == 0 {
			return l
		}
		return &Lin{c: l.c + k*o.c, t: l.t}
	}
	r := &Lin{c: l.c + k*o.c}
	i, j := 0, 0
	for i < len(l.t) || j < len(o.t) {
		switch {
		case j >= len(o.t) || (i < len(l.t) && l.t[i].y.key < o.t[j].y.key):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || o.t[j].y.key < l.t[i].y.key:
			r.t = append(r.t, lterm{k * o.t[j].k, o.t[j].y})
			j++
		default:
			if kk := l.t[i].k + k*o.t[j].k; kk != 0 {
				r.t = append(r.t, lterm{kk, l.t[i].y})
			}
			i++
			j++
		}
	}
	return r
}

func (l *Lin) plus(c int64) *Lin {
	if c == 0 {
		return l
	}
	return &Lin{c: l.c + c, t: l.t}
}
func (l *Lin) sub(o *Lin) *Lin { return l.add(o, -1) }
func (l *Lin) mul(k int64) *Lin {
	if k == 1 {
		return l
	}
	return con(0).add(l, k)
}
func (l *Lin) eq(o *Lin) bool {
	if l == o {
		return true
	}
	if l.c != o.c || len(l.t) != len(o.t) {
		return false
	}
	for i := range l.t {
		if l.t[i].k != o.t[i].k || l.t[i].y != o.t[i].y {
			return false
		}
	}
	return true
}

// single returns (sym, c, true) when l = sym + c.
func (l *Lin) single() (*Sym, int64, bool) {
	if len(l.t) == 1 && l.t[0].k == 1 {
		return l.t[0].y, l.c, true
	}
	return nil, 0, false
}

func (l *Lin) key() string {
	if len(l.t) == 0 {
		return strconv.FormatInt(l.c, 10)
	}
	var b strings.Builder
	l.write(&b)
	return b.String()
}
func (l *Lin) write(b *strings.Builder) {
	for i, t := range l.t {
		if t.k == 1 {
			if i > 0 {
				b.WriteByte('+')
			}
		} else {
			b.WriteString(strconv.FormatInt(t.k, 10))
			b.WriteByte('*')
		}
		b.WriteString(t.y.key)
	}
	if l.c != 0 || len(l.t) == 0 {
		if l.c >= 0 && len(l.t) > 0 {
			b.WriteByte('+')
		}
		b.WriteString(strconv.FormatInt(l.c, 10))
	}
}

// ---------------------------------------------------------------- values

type Val interface{}

type (
	BoolV bool
	NilV  struct{}
	// FloatV and others we do not model
	UnkV struct {
		why    string
		nonnil bool
	}
	// StaleV is a left-over of an earlier call on the same object.
	StaleV struct{ name string }
	PtrV   struct {
		obj  int
		path string // "/"-separated field or element indexes
	}
	SliceV struct {
		obj           int
		off, len, cap *Lin
	}
	StructV struct {
		f []Val
	}
	ArrayV struct {
		e []Val
	}
	IfaceV struct {
		typ types.Type
		val Val
	}
	FuncV struct {
		fn   *ssa.Function
		bind []Val
	}
	BuiltinV struct{ b *ssa.Builtin }
	MapV     struct{ obj int }
	TupleV   struct{ v []Val }
	IterV    struct {
		str  *Str // string iteration
		at   *Lin
		list []Val // (key) list for map iteration
		m    int
		i    int
	}
	// TermV is an opaque pure term. op identifies the function.
	TermV struct {
		op     string
		args   []Val
		nonnil bool
	}
	// TokV is a synchronised value: whatever the reference automaton holds in register name.
	TokV struct{ name string }
	// OpaqueFn is a function supplied by the user of the API (the listener).
	OpaqueFn struct{ name string }
)

// Part kinds of strings.
type Part struct {
	kind byte // 'L' literal, 'S' slice of stream, 'B' byte of lin a, 'D' decimal of lin a, 'T' term, 'Z' zero bytes (a = count)
	lit  string
	s    int
	a, b *Lin
	term Val
}

// Str is a string (or byte array content) value.
type Str struct {
	p []Part
}

var emptyStr = &Str{}

func lit(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{p: []Part{{kind: 'L', lit: s}}}
}

func (x *Str) isLit() (string, bool) {
	if len(x.p) == 0 {
		return "", true
	}
	if len(x.p) == 1 && x.p[0].kind == 'L' {
		return x.p[0].lit, true
	}
	return "", false
}

func concat(xs ...*Str) *Str {
	r := &Str{}
	for _, x := range xs {
		for _, p := range x.p {
			r.push(p)
		}
	}
	return r
}

func (x *Str) push(p Part) {
	switch p.kind {
	case 'L':
		if p.lit == "" {
			return
		}
		if n := len(x.p); n > 0 && x.p[n-1].kind == 'L' {
			x.p[n-1] = Part{kind: 'L', lit: x.p[n-1].lit + p.lit}
			return
		}
	case 'B':
		if p.a.isConst() {
			x.push(Part{kind: 'L', lit: string([]byte{byte(p.a.c)})})
			return
		}
		if y, c, ok := p.a.single(); ok && c == 0 && y.kind == 'B' {
			var a *Lin
			if y.name == "" { // absolute
				a = con(int64(y.off))
			} else {
				a = &Lin{c: int64(y.off), t: []lterm{{1, symOfPos(y)}}}
			}
			x.push(Part{kind: 'S', s: y.s, a: a, b: a.plus(1)})
			return
		}
	case 'S':
		if p.a.eq(p.b) {
			return
		}
		if n := len(x.p); n > 0 && x.p[n-1].kind == 'S' && x.p[n-1].s == p.s && x.p[n-1].b.eq(p.a) {
			q := x.p[n-1]
			x.p[n-1] = Part{kind: 'S', s: p.s, a: q.a, b: p.b}
			return
		}
	case 'D':
		if p.a.isConst() {
			x.push(Part{kind: 'L', lit: strconv.FormatInt(p.a.c, 10)})
			return
		}
	case 'Z':
		if p.a.isConst() {
			if p.a.c <= 0 {
				return
			}
			if p.a.c < 4096 {
				x.push(Part{kind: 'L', lit: strings.Repeat("\x00", int(p.a.c))})
				return
			}
		}
	}
	x.p = append(x.p, p)
}

// symOfPos gives the position symbol a byte symbol is based on (set by the engine's table).
var symOfPos func(y *Sym) *Sym

func (p *Part) write(b *strings.Builder) {
	switch p.kind {
	case 'L':
		b.WriteString(strconv.Quote(p.lit))
	case 'S':
		b.WriteString("in")
		b.WriteString(strconv.Itoa(p.s))
		b.WriteByte('[')
		p.a.write(b)
		b.WriteByte(':')
		p.b.write(b)
		b.WriteByte(']')
	case 'B':
		b.WriteString("byte(")
		p.a.write(b)
		b.WriteByte(')')
	case 'D':
		b.WriteString("dec(")
		p.a.write(b)
		b.WriteByte(')')
	case 'Z':
		b.WriteString("zeros(")
		p.a.write(b)
		b.WriteByte(')')
	case 'T':
		writeVal(b, p.term)
	}
}

func (x *Str) write(b *strings.Builder) {
	if len(x.p) == 0 {
		b.WriteString(`""`)
	}
	for i := range x.p {
		if i > 0 {
			b.WriteByte('.')
		}
		x.p[i].write(b)
	}
}

func (x *Str) key() string {
	var b strings.Builder
	x.write(&b)
	return b.String()
}

func valKey(v Val) string {
	var b strings.Builder
	writeVal(&b, v)
	return b.String()
}

func writeVal(b *strings.Builder, v Val) { writeValF(b, v, nil) }

// writeValF writes v; objID, when given, canonicalises object numbers.
func writeValF(b *strings.Builder, v Val, objID func(int) int) {
	id := func(o int) int {
		if objID != nil {
			return objID(o)
		}
		return o
	}
	switch v := v.(type) {
	case nil:
		b.WriteByte('_')
	case *Lin:
		v.write(b)
	case BoolV:
		if v {
			b.WriteByte('t')
		} else {
			b.WriteByte('f')
		}
	case NilV:
		b.WriteString("nil")
	case UnkV:
		b.WriteString("?" + v.why)
	case StaleV:
		b.WriteString("stale:" + v.name)
	case *Str:
		v.write(b)
	case PtrV:
		b.WriteByte('&')
		b.WriteString(strconv.Itoa(id(v.obj)))
		b.WriteString(v.path)
	case *SliceV:
		b.WriteString("sl")
		b.WriteString(strconv.Itoa(id(v.obj)))
		b.WriteByte('[')
		v.off.write(b)
		b.WriteByte('|')
		v.len.write(b)
		b.WriteByte('|')
		if v.cap != nil {
			v.cap.write(b)
		}
		b.WriteByte(']')
	case *StructV:
		b.WriteByte('{')
		for i, f := range v.f {
			if i > 0 {
				b.WriteByte(',')
			}
			writeValF(b, f, objID)
		}
		b.WriteByte('}')
	case *ArrayV:
		b.WriteByte('[')
		for i, f := range v.e {
			if i > 0 {
				b.WriteByte(',')
			}
			writeValF(b, f, objID)
		}
		b.WriteByte(']')
	case *IfaceV:
		b.WriteString("i<")
		b.WriteString(typeName(v.typ))
		b.WriteByte('>')
		writeValF(b, v.val, objID)
	case *FuncV:
		b.WriteString("fn:")
		b.WriteString(v.fn.String())
		b.WriteByte('(')
		for _, x := range v.bind {
			writeValF(b, x, objID)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	case MapV:
		b.WriteString("map")
		b.WriteString(strconv.Itoa(id(v.obj)))
	case *TupleV:
		b.WriteByte('(')
		for _, x := range v.v {
			writeValF(b, x, objID)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	case *IterV:
		b.WriteString("iter(")
		if v.str != nil {
			v.str.write(b)
			b.WriteByte('@')
			v.at.write(b)
		} else {
			b.WriteString(strconv.Itoa(v.i))
			for _, x := range v.list {
				b.WriteByte(',')
				writeValF(b, x, objID)
			}
		}
		b.WriteByte(')')
	case *TermV:
		b.WriteString(v.op)
		b.WriteByte('(')
		for i, x := range v.args {
			if i > 0 {
				b.WriteByte(',')
			}
			writeValF(b, x, objID)
		}
		b.WriteByte(')')
	case TokV:
		b.WriteByte('$')
		b.WriteString(v.name)
	case OpaqueFn:
		b.WriteString("user:" + v.name)
	case BuiltinV:
		b.WriteString("builtin:" + v.b.Name())
	case *modelFn:
		b.WriteString("model:" + v.name)
	case *ElemV:
		b.WriteString("&")
		b.WriteString(strconv.Itoa(id(v.obj)))
		b.WriteString(v.path)
		b.WriteByte('/')
		v.at.write(b)
	case *MapC:
		b.WriteString("M{")
		if v.tok != nil {
			writeValF(b, v.tok, objID)
		}
		for _, o := range v.ops {
			if o.del {
				b.WriteString(" -")
				writeValF(b, o.key, objID)
			} else {
				b.WriteString(" ")
				writeValF(b, o.key, objID)
				b.WriteString("=>")
				writeValF(b, o.val, objID)
			}
		}
		b.WriteByte('}')
	case *ListC:
		b.WriteString("L[")
		if v.tok != nil {
			writeValF(b, v.tok, objID)
		}
		for _, o := range v.e {
			b.WriteByte(' ')
			writeValF(b, o, objID)
		}
		b.WriteByte(']')
	default:
		panic(fmt.Sprintf("writeVal %T", v))
	}
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// MapC is the content of a map object: base token (nil = empty) plus operations in order.
type MapC struct {
	tok Val
	ops []mapOp
}
type mapOp struct {
	del bool
	key Val
	val Val
}

// ListC is the content of a non-byte array object: optional token prefix plus elements.
type ListC struct {
	tok Val
	e   []Val
}

func hasSyms(v Val) bool {
	switch v := v.(type) {
	case *Lin:
		return len(v.t) > 0
	case *Str:
		for i := range v.p {
			if v.p[i].kind != 'L' {
				return true
			}
		}
		return false
	case BoolV, NilV, PtrV, MapV, UnkV, StaleV, nil, OpaqueFn, BuiltinV:
		return false
	}
	return true
}

// substitution ---------------------------------------------------------------

// subst rewrites values: lin maps linear forms, val (optional) maps whole values top-down
// (returning (new, true) to replace).
type subst struct {
	lin func(*Lin) *Lin
	val func(Val) (Val, bool)
}

func (z *subst) do(v Val) Val {
	if z.val != nil {
		if n, ok := z.val(v); ok {
			return n
		}
	}
	switch x := v.(type) {
	case *Lin:
		if len(x.t) == 0 {
			return x
		}
		return z.linear(x)
	case *Str:
		return z.str(x)
	case *SliceV:
		o, l := z.linear(x.off), z.linear(x.len)
		c := x.cap
		if c != nil {
			c = z.linear(c)
		}
		if o == x.off && l == x.len && c == x.cap {
			return x
		}
		return &SliceV{x.obj, o, l, c}
	case *StructV:
		if n, ch := z.list(x.f); ch {
			return &StructV{n}
		}
	case *ArrayV:
		if n, ch := z.list(x.e); ch {
			return &ArrayV{n}
		}
	case *IfaceV:
		n := z.do(x.val)
		if n != x.val {
			return &IfaceV{x.typ, n}
		}
	case *ElemV:
		n := z.linear(x.at)
		if n != x.at {
			return &ElemV{x.obj, x.path, n}
		}
	case *FuncV:
		if n, ch := z.list(x.bind); ch {
			return &FuncV{x.fn, n}
		}
	case *TupleV:
		if n, ch := z.list(x.v); ch {
			return &TupleV{n}
		}
	case *TermV:
		if n, ch := z.list(x.args); ch {
			return &TermV{x.op, n, x.nonnil}
		}
	case *IterV:
		n := *x
		if x.str != nil {
			n.str = z.str(x.str)
			n.at = z.linear(x.at)
			if n.str == x.str && n.at == x.at {
				return x
			}
			return &n
		}
		if l, ch := z.list(x.list); ch {
			n.list = l
			return &n
		}
	case *MapC:
		var ops []mapOp
		ch := false
		t := x.tok
		if t != nil {
			t = z.do(t)
			if t != x.tok {
				ch = true
			}
		}
		for _, o := range x.ops {
			n := mapOp{o.del, z.do(o.key), nil}
			if o.val != nil {
				n.val = z.do(o.val)
			}
			if n.key != o.key || n.val != o.val {
				ch = true
			}
			ops = append(ops, n)
		}
		if ch {
			return &MapC{t, ops}
		}
	case *ListC:
		t := x.tok
		if t != nil {
			t = z.do(t)
		}
		n, ch := z.list(x.e)
		if ch || t != x.tok {
			if !ch {
				n = x.e
			}
			return &ListC{t, n}
		}
	}
	return v
}

func (z *subst) list(l []Val) ([]Val, bool) {
	var r []Val
	for i, v := range l {
		n := z.do(v)
		if r == nil && n != v {
			r = make([]Val, len(l))
			copy(r, l[:i])
		}
		if r != nil {
			r[i] = n
		}
	}
	return r, r != nil
}

func (z *subst) linear(l *Lin) *Lin {
	if len(l.t) == 0 || z.lin == nil {
		return l
	}
	// opaque terms inside
	var r *Lin
	for i, t := range l.t {
		if t.y.kind == 'T' {
			n := z.do(t.y.term)
			if n != Val(t.y.term) {
				if r == nil {
					r = &Lin{c: l.c}
					for _, u := range l.t[:i] {
						r = r.add(symLin(u.y), u.k)
					}
				}
				if tv, ok := n.(*TermV); ok {
					r = r.add(symLin(globalTab.term(tv, t.y.lo, t.y.hi)), t.k)
				} else if nl, ok := n.(*Lin); ok {
					r = r.add(nl, t.k)
				} else {
					panic("term symbol replaced by non integer")
				}
				continue
			}
		}
		if r != nil {
			r = r.add(symLin(t.y), t.k)
		}
	}
	if r != nil {
		l = r
	}
	return z.lin(l)
}

func (z *subst) str(x *Str) *Str {
	ch := false
	var np []Part
	for i := range x.p {
		p := x.p[i]
		q := p
		if p.a != nil {
			q.a = z.linear(p.a)
		}
		if p.b != nil {
			q.b = z.linear(p.b)
		}
		if p.term != nil {
			q.term = z.do(p.term)
		}
		if q.a != p.a || q.b != p.b || q.term != p.term {
			ch = true
		}
		np = append(np, q)
	}
	if !ch {
		return x
	}
	r := &Str{}
	for _, p := range np {
		if p.kind == 'T' {
			if st, ok := p.term.(*Str); ok {
				for _, q := range st.p {
					r.push(q)
				}
				continue
			}
		}
		r.push(p)
	}
	return r
}

// symsOf collects the symbols of a value.
func symsOf(v Val, f func(*Sym)) {
	z := &subst{}
	z.lin = func(l *Lin) *Lin {
		for _, t := range l.t {
			f(t.y)
		}
		return l
	}
	z.do(v)
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
