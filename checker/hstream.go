package main

// Common parts of the stream parsers' harnesses: a stream is read as a sequence of blocks (a frame header, a line),
// each an unknown text of its own; what is left of a finished block is renamed and its details are forgotten.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// streamHooks connects the library models to the reference of a stream parser.
type streamHooks struct {
	blockSyms map[string]bool // named numbers that belong to the current block
	blockToks map[string]bool // texts that belong to the current or last block
	tokLen    map[string]*Lin // their lengths
	beforeByte,
	discard func(s *State)
	take      func(s *State, text *Str, n *Lin) // the code takes n octets as one message
	readBytes func(s *State, delim *Lin) (text *Str, err Val)
	number    func(s *State, text *Str, signed bool) (Val, Val)
}

// blocks ------------------------------------------------------------------------

var lostRe = regexp.MustCompile(`lost#(\d+)`)

func isLostName(n string) bool { return strings.HasPrefix(n, "lost#") }

// mentions says whether v depends on the current block of stream st.
func (s *State) mentions(v Val, st int) bool {
	h := s.e.hooks
	found := false
	z := &subst{}
	z.lin = func(l *Lin) *Lin {
		for _, t := range l.t {
			if s.blockSym(t.y, st) {
				found = true
			}
		}
		return l
	}
	z.val = func(v Val) (Val, bool) {
		switch x := v.(type) {
		case *Str:
			for i := range x.p {
				if x.p[i].kind == 'S' && x.p[i].s == st {
					found = true
				}
			}
		case TokV:
			if h.blockToks[x.name] {
				found = true
			}
		}
		return nil, false
	}
	z.do(v)
	return found
}

func (s *State) blockSym(y *Sym, st int) bool {
	return (y.kind == 'P' || y.kind == 'B') && y.s == st || y.kind == 'N' && s.e.hooks.blockSyms[y.name]
}

// dropBlock forgets the current block of stream st: the texts keep knows get new names, every other text or number that
// depends on the block becomes an unknown one. The stream begins anew with the given reference.
func (s *State) dropBlock(st int, mon Mon, keep func(*Str) *Str) {
	s.dropBlockLen(st, mon, keep, nil, nil)
}

// dropBlockLen also gives the number from, the length of the text that is kept, the new name to.
func (s *State) dropBlockLen(st int, mon Mon, keep func(*Str) *Str, from, to *Lin) {
	s.ownBytes()
	texts := map[string]string{}
	nums := map[string]string{}
	n := 0
	fresh := func(m map[string]string, k string) string {
		if m[k] == "" {
			n++
			m[k] = "lost#new" + strconv.Itoa(n)
		}
		return m[k]
	}
	type iv struct {
		y      *Sym
		lo, hi int64
	}
	var ivs []iv
	z := &subst{}
	z.val = func(v Val) (Val, bool) {
		switch x := v.(type) {
		case *Str:
			if keep != nil {
				if k := keep(x); k != nil {
					return k, true
				}
				// the front of a larger array
				for i := len(x.p) - 1; i > 0; i-- {
					if k := keep(&Str{p: x.p[:i]}); k != nil {
						rest := &Str{p: x.p[i:]}
						return concat(k, &Str{p: []Part{{kind: 'T', term: TokV{fresh(texts, rest.key())}}}}), true
					}
				}
			}
			if s.mentions(x, st) {
				return &Str{p: []Part{{kind: 'T', term: TokV{fresh(texts, x.key())}}}}, true
			}
			return x, true
		case TokV:
			if s.e.hooks.blockToks[x.name] {
				return TokV{fresh(texts, valKey(x))}, true
			}
		case *IterV:
			if x.str != nil && s.mentions(x.str, st) {
				return UnkV{why: "iteration over a text that is gone"}, true
			}
		}
		return nil, false
	}
	z.lin = func(l *Lin) *Lin {
		part, rest := &Lin{}, &Lin{c: l.c}
		for _, t := range l.t {
			if s.blockSym(t.y, st) {
				part = part.add(symLin(t.y), t.k)
			} else {
				rest = rest.add(symLin(t.y), t.k)
			}
		}
		if len(part.t) == 0 {
			return l
		}
		if from != nil && part.eq(from) {
			return rest.add(to, 1)
		}
		k := part.key()
		old := nums[k] != ""
		y := globalTab.named(fresh(nums, k), minInt, maxInt)
		if !old {
			lo, hi := s.interval(s.norm(part))
			ivs = append(ivs, iv{y, lo, hi})
		}
		return rest.add(symLin(y), 1)
	}
	s.substAll(z)
	for k, f := range s.facts {
		gone := strings.Contains(k, "lost#new")
		if f.bsym != nil && f.bsym.s == st || f.lin != nil && s.mentions(f.lin, st) || f.atom != nil && s.mentions(f.atom, st) {
			gone = true
		}
		if gone {
			delete(s.facts, k)
		}
	}
	for _, x := range ivs {
		if x.lo > minInt || x.hi < maxInt {
			s.addInterval(symLin(x.y), x.lo, x.hi)
		}
	}
	s.forgetCounters(&n)
	o := s.streams[st]
	s.streams[st] = &Stream{id: st, name: o.name, mon: mon, dist: map[string]int{}, alias: map[string]string{}, plain: o.plain, without: o.without}
	s.trace = &traceNode{up: s.trace, s: st, note: "block"}
	s.steps = 0
	s.renumber()
}

// ownBytes are the byte arrays of which every slice covers the whole. Slices of the whole of an array get the form that says so.
func (s *State) ownBytes() []int {
	whole := map[int]bool{}
	for id, o := range s.heap {
		if x, ok := o.val.(*Str); ok && o.pre == "" && !o.input && o.typ != nil && len(x.p) > 0 {
			if _, ok := o.typ.Underlying().(*types.Slice); ok {
				whole[id] = true
			}
		}
	}
	full := func(x *SliceV) (is bool) {
		defer func() {
			if r := recover(); r != nil {
				is = false
			}
		}()
		n := s.strLen(s.heap[x.obj].val.(*Str))
		return x.off.eq(con(0)) && x.len.eq(x.cap) && s.norm(n.sub(x.len)).eq(con(0))
	}
	arrays := map[int]bool{}
	for id := range whole {
		arrays[id] = true
	}
	set := &subst{}
	set.val = func(v Val) (Val, bool) {
		if x, ok := v.(*SliceV); ok && arrays[x.obj] && !x.isWhole() {
			if full(x) {
				return &SliceV{x.obj, con(0), con(-1), con(-1)}, true
			}
			delete(whole, x.obj)
		}
		return nil, false
	}
	set.lin = func(l *Lin) *Lin { return l }
	s.substAll(set)
	var ids []int
	for id := range whole {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

// widen forgets the bytes and numbers an earlier stream left behind: a sound generalisation that makes histories meet.
func (s *State) widen() {
	n := 0
	for _, id := range s.ownBytes() {
		n++
		s.setVal(id, &Str{p: []Part{{kind: 'T', term: TokV{"lost#new" + strconv.Itoa(n)}}}})
	}
	for id, o := range s.heap {
		if x, ok := o.val.(*StructV); ok && o.typ == bufTyp {
			n++
			f := append([]Val(nil), x.f...)
			f[bufOff] = symLin(globalTab.named("lost#new"+strconv.Itoa(n), minInt, maxInt))
			s.setVal(id, &StructV{f})
		}
	}
	for k, f := range s.facts {
		if f.lin != nil && strings.Contains(k, "lost#") || f.atom != nil {
			delete(s.facts, k)
		}
	}
	s.renumber()
}

// renumber names the forgotten texts and numbers in the order in which the state refers to them.
func (s *State) renumber() {
	names := map[string]string{}
	key := lostAny.FindAllString(s.e.stateKey(s), -1)
	for _, k := range key {
		if names[k] == "" {
			names[k] = "lost#" + strconv.Itoa(len(names)+1)
		}
	}
	if len(names) == 0 {
		return
	}
	z := &subst{}
	z.val = func(v Val) (Val, bool) {
		if x, ok := v.(TokV); ok && isLostName(x.name) && names[x.name] != "" {
			return TokV{names[x.name]}, true
		}
		return nil, false
	}
	z.lin = func(l *Lin) *Lin {
		r := l
		for _, t := range l.t {
			if t.y.kind == 'N' && names[t.y.name] != "" {
				if r == l {
					r = &Lin{c: l.c}
					for _, u := range l.t {
						if !(u.y.kind == 'N' && names[u.y.name] != "") {
							r = r.add(symLin(u.y), u.k)
						}
					}
				}
				r = r.add(symLin(globalTab.named(names[t.y.name], minInt, maxInt)), t.k)
			}
		}
		return r
	}
	s.substAll(z)
}

var lostAny = regexp.MustCompile(`lost#(new\d*|\d+)`)

// buffered readers ----------------------------------------------------------------

// bufTyp is the type of the object behind a *bufio.Reader.
var bufTyp = types.NewNamed(types.NewTypeName(token.NoPos, nil, "bufferedReader", nil), types.NewStruct(nil, nil), nil)

const (
	bufSrc = iota
	bufSize
	bufOff  // position of the next byte in the block
	bufLast // the last byte can be unread
	bufSeen // the array behind the last result of Peek
	bufLen
)

const blockStream = 0

// source checks what a buffered reader reads from: the stream, all of it and as it is.
func (s *State) source(src Val) {
	iv, ok := src.(*IfaceV)
	if !ok {
		s.undecided("reads from %s", valKey(src))
	}
	switch t := iv.typ.String(); {
	case t == "*bufio.Reader" || strings.HasSuffix(t, "/zzverifshim.Source"):
	case t == "*io.LimitedReader":
		p := s.ptr(iv.val)
		s.source(s.load(PtrV{p.obj, p.path + "/0"}))
		if n := s.intv(s.load(PtrV{p.obj, p.path + "/1"})); !s.cmp(token.GEQ, n, con(maxInt)) {
			s.violate("frame", "reads the first %s octets of the stream only", s.show(n))
		}
	default:
		s.undecided("reads the stream by way of %s", t)
	}
}

func (s *State) newBuf(src Val, size *Lin) Val {
	s.source(src)
	f := make([]Val, bufLen)
	f[bufSrc], f[bufSize], f[bufOff], f[bufLast], f[bufSeen] = src, size, s.H(blockStream), BoolV(false), NilV{}
	return PtrV{s.alloc(bufTyp, &StructV{f}), ""}
}

func (s *State) bufOf(v Val) (int, []Val) {
	p := s.ptr(v)
	o := s.obj(p.obj)
	x, ok := o.val.(*StructV)
	if p.path != "" || !ok || o.typ != bufTyp {
		s.undecided("a buffered reader in an unexpected form")
	}
	return p.obj, append([]Val(nil), x.f...)
}

func (s *State) setBuf(id int, f []Val) { s.setVal(id, &StructV{f}) }

// endErr is the error with which the reader ends.
func (s *State) endErr() Val {
	k := s.flags["endkind"]
	if k == nil {
		fork(func(n *State) { n.flags["endkind"] = lit("EOF") }, func(n *State) { n.flags["endkind"] = lit("error") })
	}
	if x, _ := k.(*Str).isLit(); x == "EOF" {
		return s.sentinel("io", "EOF")
	}
	return mkErr(&Str{p: []Part{{kind: 'T', term: TokV{"the reader's error"}}}})
}

func (s *State) sentinel(pkg, name string) Val {
	p := s.e.w.pkgs[pkg]
	if p == nil {
		s.undecided("package %s is not loaded", pkg)
	}
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		s.undecided("no variable %s.%s", pkg, name)
	}
	return s.load(s.e.global(s, g).(PtrV))
}

// poison invalidates the result of the last Peek, whose memory is used again.
func (s *State) poison(f []Val) {
	if x, ok := f[bufSeen].(PtrV); ok {
		s.setVal(x.obj, &Str{p: []Part{{kind: 'T', term: StaleV{"a slice of the read buffer"}}}})
		f[bufSeen] = NilV{}
	}
}

func (s *State) bufRel(f []Val) int64 {
	c, ok := s.rel(f[bufOff].(*Lin), blockStream)
	if !ok {
		s.undecided("the position of the reader is not known")
	}
	return c
}

// have makes sure that the byte at distance d from the reader's position is known or the end.
func (s *State) have(f []Val, d int64) bool {
	c := s.bufRel(f) + d
	t := s.streams[blockStream]
	if c < 0 {
		return true
	}
	if c == 0 {
		s.query(blockStream)
		if t.status == stEnd {
			s.finish(blockStream)
			return false
		}
		return true
	}
	if t.status != stByte {
		s.query(blockStream)
	}
	if t.status == stEnd {
		s.finish(blockStream)
		return false
	}
	s.advance(blockStream)
	panic(&forkReq{alts: []func(*State){func(*State) {}}})
}

// reserve checks the size of memory that is set aside: no more than there can be for a size that was only announced,
// and a message length no more than the maximum, of which there has to be memory for.
func (s *State) reserve(n *Lin) {
	said, max := false, false
	for _, x := range n.t {
		if x.y.kind == 'N' {
			switch x.y.name {
			case "MAX":
				max = true
			case "N", "NBIG", "NBAD":
				said = true
			}
		}
	}
	if !said && !max {
		return
	}
	s.e.oblig["room"]++
	if _, hi := s.interval(s.norm(n)); hi <= 1<<47 {
		return
	}
	if limit, ok := s.flags["max"].(*Lin); ok && !max && s.cmp(token.LEQ, n, limit) {
		return
	}
	s.violate("panic", "room for up to 2^60 octets is set aside: %s", s.show(n))
}

func bufModels(m map[string]modelFunc) {
	const R = "(*bufio.Reader)."
	for _, n := range []string{"Read", "ReadSlice", "ReadLine", "ReadRune", "UnreadRune", "ReadString", "Buffered", "WriteTo"} {
		n := n
		m[R+n] = func(s *State, a []Val) Val {
			if n == "Read" || n == "Buffered" || n == "ReadSlice" || n == "ReadLine" {
				s.violate("chunk", "bufio.Reader.%s gives results that depend on how the data arrives", n)
			}
			s.undecided("bufio.Reader.%s", n)
			return nil
		}
	}
	m["bufio.NewReader"] = func(s *State, a []Val) Val { return s.newBuf(a[0], con(4096)) }
	m["bufio.NewReaderSize"] = func(s *State, a []Val) Val {
		n := s.intv(a[1])
		if !s.cmp(token.GEQ, n, con(16)) {
			n = con(16)
		}
		s.reserve(n)
		return s.newBuf(a[0], n)
	}
	m[R+"ReadByte"] = func(s *State, a []Val) Val {
		id, f := s.bufOf(a[0])
		if h := s.e.hooks; h != nil && h.beforeByte != nil {
			h.beforeByte(s)
		}
		if !s.have(f, 0) {
			err := s.endErr()
			s.poison(f)
			s.setBuf(id, f)
			return &TupleV{[]Val{con(0), err}}
		}
		off := f[bufOff].(*Lin)
		s.poison(f)
		f[bufOff], f[bufLast] = s.canonLin(off.plus(1)), BoolV(true)
		s.setBuf(id, f)
		return &TupleV{[]Val{s.byteSym(blockStream, off), NilV{}}}
	}
	m[R+"UnreadByte"] = func(s *State, a []Val) Val {
		id, f := s.bufOf(a[0])
		if f[bufLast] != Val(BoolV(true)) {
			return s.sentinel("bufio", "ErrInvalidUnreadByte")
		}
		f[bufOff], f[bufLast] = s.canonLin(f[bufOff].(*Lin).plus(-1)), BoolV(false)
		s.setBuf(id, f)
		return NilV{}
	}
	m[R+"Size"] = func(s *State, a []Val) Val {
		_, f := s.bufOf(a[0])
		return f[bufSize]
	}
	m[R+"Reset"] = func(s *State, a []Val) Val {
		id, f := s.bufOf(a[0])
		s.source(a[1])
		s.poison(f)
		f[bufSrc], f[bufOff], f[bufLast] = a[1], s.H(blockStream), BoolV(false)
		s.setBuf(id, f)
		return nil
	}
	m[R+"Peek"] = func(s *State, a []Val) Val {
		id, f := s.bufOf(a[0])
		n := s.intv(a[1])
		size := f[bufSize].(*Lin)
		if !s.cmp(token.GEQ, n, con(0)) {
			return &TupleV{[]Val{NilV{}, s.sentinel("bufio", "ErrNegativeCount")}}
		}
		if !s.cmp(token.LEQ, n, size) {
			s.bad("chunk", "a block of %s octets does not fit the buffer of %s octets", s.show(n), s.show(size))
		}
		text, full := s.ahead(f, n)
		var err Val = NilV{}
		if !full {
			err = s.endErr()
		}
		s.poison(f)
		bt := types.NewSlice(types.Typ[types.Byte])
		o := s.alloc(bt, text)
		f[bufLast], f[bufSeen] = BoolV(false), PtrV{o, ""}
		s.setBuf(id, f)
		return &TupleV{[]Val{&SliceV{o, con(0), con(-1), con(-1)}, err}}
	}
	m[R+"Discard"] = func(s *State, a []Val) Val {
		id, f := s.bufOf(a[0])
		n := s.intv(a[1])
		if !s.cmp(token.GEQ, n, con(0)) {
			return &TupleV{[]Val{con(0), s.sentinel("bufio", "ErrNegativeCount")}}
		}
		return &TupleV{s.consume(id, f, n)}
	}
	m["io.ReadFull"] = func(s *State, a []Val) Val {
		iv, ok := a[0].(*IfaceV)
		if !ok {
			s.undecided("io.ReadFull from %s", valKey(a[0]))
		}
		id, f := s.bufOf(iv.val)
		dst, ok := a[1].(*SliceV)
		if !ok {
			s.undecided("io.ReadFull into %s", valKey(a[1]))
		}
		dst = s.known(dst)
		o := s.obj(dst.obj)
		c, ok := o.val.(*Str)
		if !ok || !dst.off.eq(con(0)) {
			s.undecided("io.ReadFull into a part of an array")
		}
		rest := emptyStr
		if !s.norm(s.strLen(c).sub(dst.len)).eq(con(0)) {
			rest = &Str{p: []Part{{kind: 'T', term: TokV{"lost#new"}}}}
		}
		s.checkAccess(o, PtrV{dst.obj, ""}, true)
		text, full := s.ahead(f, dst.len)
		var err Val = NilV{}
		if !full {
			got := s.strLen(text)
			err = s.endErr()
			if x, _ := s.flags["endkind"].(*Str).isLit(); x == "EOF" && !s.cmp(token.EQL, got, con(0)) {
				err = s.sentinel("io", "ErrUnexpectedEOF")
			}
			text = concat(text, &Str{p: []Part{{kind: 'Z', a: dst.len.sub(got)}}})
			s.setVal(dst.obj, concat(text, rest))
			return &TupleV{[]Val{got, err}}
		}
		s.setVal(dst.obj, concat(text, rest))
		r := s.consume(id, f, dst.len)
		return &TupleV{r}
	}
	// block reads n octets, or what there is of them with the error at the end.
	block := func(s *State, r Val, n *Lin) (text *Str, got *Lin, err Val) {
		iv, ok := r.(*IfaceV)
		if !ok {
			s.undecided("a block read from %s", valKey(r))
		}
		id, f := s.bufOf(iv.val)
		if !s.cmp(token.GTR, n, con(0)) {
			return emptyStr, con(0), NilV{}
		}
		text, full := s.ahead(f, n)
		if !full {
			return text, s.strLen(text), s.endErr()
		}
		s.flags["read"] = text
		v := s.consume(id, f, n)
		text = s.flags["read"].(*Str)
		delete(s.flags, "read")
		return text, v[0].(*Lin), NilV{}
	}
	m["io.CopyN"] = func(s *State, a []Val) Val {
		text, got, err := block(s, a[1], s.intv(a[2]))
		if len(text.p) > 0 {
			m["io.WriteString"](s, []Val{a[0], text})
		}
		return &TupleV{[]Val{got, err}}
	}
	// limited reads all that an io.LimitedReader gives.
	limited := func(s *State, what string, r Val) (*Str, *Lin, Val) {
		iv, ok := r.(*IfaceV)
		if !ok || iv.typ.String() != "*io.LimitedReader" {
			s.undecided("%s of %s", what, valKey(r))
		}
		p := s.ptr(iv.val)
		left := PtrV{p.obj, p.path + "/1"}
		text, got, err := block(s, s.load(PtrV{p.obj, p.path + "/0"}), s.intv(s.load(left)))
		s.store(left, con(0))
		if !isNilV(err) {
			if k, _ := s.flags["endkind"].(*Str).isLit(); k == "EOF" {
				err = NilV{}
			}
		}
		return text, got, err
	}
	m["io.ReadAll"] = func(s *State, a []Val) Val {
		text, _, err := limited(s, "io.ReadAll", a[0])
		return &TupleV{[]Val{&SliceV{s.alloc(types.NewSlice(types.Typ[types.Byte]), text), con(0), con(-1), con(-1)}, err}}
	}
	m["io.Copy"] = func(s *State, a []Val) Val {
		text, got, err := limited(s, "io.Copy", a[1])
		if len(text.p) > 0 {
			m["io.WriteString"](s, []Val{a[0], text})
		}
		return &TupleV{[]Val{got, err}}
	}
	m["(*bytes.Buffer).ReadFrom"] = func(s *State, a []Val) Val {
		text, got, err := limited(s, "ReadFrom", a[1])
		if len(text.p) > 0 {
			m["(*bytes.Buffer).WriteString"](s, []Val{a[0], text})
		}
		return &TupleV{[]Val{got, err}}
	}
	m["io/ioutil.ReadAll"] = m["io.ReadAll"]
	m[R+"ReadBytes"] = func(s *State, a []Val) Val {
		h := s.e.hooks
		if h == nil || h.readBytes == nil {
			s.undecided("bufio.Reader.ReadBytes")
		}
		text, err := h.readBytes(s, s.intv(a[1]))
		o := s.alloc(types.NewSlice(types.Typ[types.Byte]), text)
		return &TupleV{[]Val{&SliceV{o, con(0), con(-1), con(-1)}, err}}
	}
	num := func(signed bool, bits int) modelFunc {
		return func(s *State, a []Val) Val {
			h := s.e.hooks
			x := s.strArg(a[0])
			if bits < 0 {
				b, c := s.intv(a[1]), s.intv(a[2])
				if !b.eq(con(10)) || !c.eq(con(64)) && !c.eq(con(0)) {
					s.undecided("number base or size")
				}
			}
			v, err := h.number(s, x, signed)
			return &TupleV{[]Val{v, err}}
		}
	}
	m["stream strconv.ParseUint"] = num(false, -1)
	m["stream strconv.ParseInt"] = num(true, -1)
	m["stream strconv.Atoi"] = num(true, 64)
}

// ahead is the text of the next n octets, or of what there is of them.
func (s *State) ahead(f []Val, n *Lin) (text *Str, full bool) {
	h := s.e.hooks
	off := f[bufOff].(*Lin)
	if n.isConst() && n.c <= 16 {
		for i := int64(0); i < n.c; i++ {
			if h.beforeByte != nil && s.bufRel(f)+i >= 0 {
				h.beforeByte(s)
			}
			if !s.have(f, i) {
				return sliceOf(blockStream, off, s.canonLin(off.plus(i))), false
			}
		}
		return sliceOf(blockStream, off, s.canonLin(off.plus(n.c))), true
	}
	// the first octet is read as any other, the rest is taken as it is
	if s.cmp(token.EQL, n, con(0)) {
		return emptyStr, true
	}
	if b, ok := s.flags["blk"].(*StructV); ok && b.f[blkN].(*Lin).eq(n) && s.norm(b.f[blkAt].(*Lin).sub(off)).eq(con(0)) {
		return b.f[blkText].(*Str), b.f[blkFull] == Val(BoolV(true))
	}
	if h.beforeByte != nil && s.bufRel(f) >= 0 {
		h.beforeByte(s)
	}
	if !s.have(f, 0) {
		return emptyStr, false
	}
	first := sliceOf(blockStream, off, s.canonLin(off.plus(1)))
	if y, c, ok := s.byteSym(blockStream, off).single(); ok && c == 0 {
		if set := s.setOf(y); set.count() == 1 {
			first = lit(string([]byte{set.repr()}))
		}
	}
	mk := func(m *State, l *Lin, full bool) {
		f := make([]Val, blkLen)
		f[blkN], f[blkAt], f[blkFull] = n, off, BoolV(full)
		f[blkText] = concat(first, &Str{p: []Part{{kind: 'T', term: &TermV{op: "octets", args: []Val{l.plus(-1)}}}}})
		m.flags["blk"] = &StructV{f}
	}
	if !s.cmp(token.GEQ, n, con(2)) {
		panic(&forkReq{alts: []func(*State){func(m *State) { mk(m, n, true) }}})
	}
	fork(func(m *State) { mk(m, n, true) }, func(m *State) {
		// the stream ends before
		a := symLin(globalTab.named("A", 1, maxInt-1))
		mk(m, a, false)
		d := m.norm(a.sub(n))
		m.addInterval(&Lin{t: d.t}, minInt, -1-d.c)
	})
	return nil, false
}

const (
	blkN    = iota // number of octets asked for
	blkAt          // where
	blkFull        // whether there are so many
	blkText
	blkLen
)

// consume moves the reader by n octets.
func (s *State) consume(id int, f []Val, n *Lin) []Val {
	h := s.e.hooks
	if n.isConst() && n.c <= 16 {
		for i := int64(0); i < n.c; i++ {
			if !s.have(f, i) {
				f[bufOff], f[bufLast] = s.canonLin(f[bufOff].(*Lin).plus(i)), BoolV(false)
				s.setBuf(id, f)
				return []Val{con(i), s.endErr()}
			}
		}
		f[bufOff], f[bufLast] = s.canonLin(f[bufOff].(*Lin).plus(n.c)), BoolV(false)
		s.setBuf(id, f)
		return []Val{n, NilV{}}
	}
	text, full := s.ahead(f, n)
	if !full {
		return []Val{s.strLen(text), s.endErr()}
	}
	if h.take == nil {
		s.undecided("octets are taken by number")
	}
	f[bufLast] = BoolV(false)
	s.setBuf(id, f)
	s.flags["tmp"] = n
	h.take(s, text, n)
	// the next block begins
	_, f = s.bufOf(PtrV{id, ""})
	f[bufOff] = s.H(blockStream)
	s.setBuf(id, f)
	n = s.flags["tmp"].(*Lin)
	delete(s.flags, "tmp")
	return []Val{n, NilV{}}
}

// the inner parser ------------------------------------------------------------------

func parseOK(op string, x *Str) *TermV { return &TermV{op: "parseok", args: []Val{lit(op), x}} }
func parsePart(op string, x *Str) *TermV {
	return &TermV{op: "parsepartial", args: []Val{lit(op), x}}
}
func parsedMsg(op string, x *Str) Val {
	return &TermV{op: "message", args: []Val{lit(op), x}, nonnil: true}
}
func parseErr(op string, x *Str) Val {
	return &IfaceV{errTyp, &TermV{op: "err", args: []Val{&Str{p: []Part{{kind: 'T', term: &TermV{op: "parseerror", args: []Val{lit(op), x}}}}}}, nonnil: true}}
}

// innerParse stands for the RFC 5424 parser, which is analysed on its own: a function of mode and text.
func innerParse(w *World) modelFunc {
	return func(s *State, a []Val) Val {
		x := s.bytesOf(a[1])
		for _, p := range x.p {
			if _, ok := p.term.(StaleV); ok {
				s.violate("frame", "parses %s, which has been overwritten", p.term.(StaleV).name)
			}
		}
		x = s.canon(x).(*Str)
		has := w.methodOf("/rfc5424", "machine", "HasBestEffort")
		if has == nil {
			s.undecided("rfc5424 parser without HasBestEffort")
		}
		op := "strict"
		if s.truth(s.subcall(1, has, a[:1])) {
			op = "best effort"
		}
		if s.atom(parseOK(op, x)) {
			return &TupleV{[]Val{parsedMsg(op, x), NilV{}}}
		}
		var m Val = NilV{}
		if op != "strict" && s.atom(parsePart(op, x)) {
			m = parsedMsg(op, x)
		}
		return &TupleV{[]Val{m, parseErr(op, x)}}
	}
}

// parseOf is what the inner parser gave for a text, if it was asked.
func (s *State) parseOf(op string, x *Str) (msg, err Val, asked bool) {
	x = s.canon(x).(*Str)
	ok, known := s.knownAtom(parseOK(op, x))
	if !known {
		return nil, nil, false
	}
	if ok {
		return parsedMsg(op, x), NilV{}, true
	}
	if p, _ := s.knownAtom(parsePart(op, x)); p {
		return parsedMsg(op, x), parseErr(op, x), true
	}
	return NilV{}, parseErr(op, x), true
}

// configuration -----------------------------------------------------------------------

// streamConf is a configuration of a stream parser: the options in order; one with a dot is set later, through a method of the
// finished parser, with two dots after the first stream.
type streamConf struct {
	pkg   string
	opts  []string
	limit *Lin // maximum length without option
}

func (c streamConf) has(o string) bool {
	for _, x := range c.opts {
		if strings.TrimLeft(x, ".") == o {
			return true
		}
	}
	return false
}

// settings notes in the state what holds for the stream parsed next: mode, listener and maximum length.
func (c streamConf) settings(s *State) {
	run := s.flags["run"].(*Lin).c
	s.flags["op"], s.flags["max"] = lit("strict"), c.limit
	delete(s.flags, "listener")
	for _, o := range c.opts {
		if run == 1 && strings.HasPrefix(o, "..") {
			break
		}
		switch strings.TrimLeft(o, ".") {
		case "besteffort":
			s.flags["op"] = lit("best effort")
		case "max":
			s.flags["max"] = symLin(globalTab.named("MAX", minInt, maxInt-1))
		case "othermax":
			s.flags["max"] = con(1 << 20)
		case "listener", "otherlistener":
			s.flags["listener"] = lit(strings.TrimLeft(o, "."))
		}
	}
}

// mode is the mode of the message parser configured for this stream.
func (s *State) mode() string {
	l, _ := s.flags["op"].(*Str).isLit()
	return l
}

func (s *State) listening() bool { return s.flags["listener"] != nil }

// heard checks that the function called is the listener in force.
func (s *State) heard(f OpaqueFn) {
	if !s.listening() || valKey(s.flags["listener"]) != valKey(lit(f.name)) {
		s.bad("listener", "calls a listener that was replaced")
	}
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// replaced are option lists in which a later option replaces an earlier one.
var replaced = [][]string{{"otherlistener", "listener"}, {"otherlistener", "besteffort", "listener", "max"}, {"othermax", "listener", "max"}, {"besteffort", "otherlistener", "othermax", "max", "listener", "besteffort"},
	{".listener"}, {".besteffort", ".listener"}, {"listener", ".besteffort"}, {"listener", "besteffort", ".besteffort"}, {"besteffort", ".max", ".listener"},
	{"max", ".listener", ".besteffort"}, {"otherlistener", ".listener", ".max"}, {"othermax", "listener", "besteffort", ".max"}, {".othermax", ".otherlistener", ".max", ".besteffort", ".listener"},
	{"listener", "..besteffort"}, {"..besteffort", "..listener"}, {"otherlistener", "max", "..listener", "..othermax"}, {"listener", "besteffort", "othermax", "..max"},
	{"listener", "othermax", "..max"}, {"listener", "..otherlistener", "..max"}}

// orders lists all sequences of different elements of l, shorter ones first.
func orders(l ...string) [][]string {
	r := [][]string{{}}
	for i := 0; i < len(r); i++ {
		for _, x := range l {
			if !has(r[i], x) {
				r = append(r, append(append([]string(nil), r[i]...), x))
			}
		}
	}
	return r
}

func (c streamConf) String() string {
	if len(c.opts) == 0 {
		return strings.TrimPrefix(c.pkg, "/") + " without options"
	}
	return strings.TrimPrefix(c.pkg, "/") + " with options " + strings.Join(c.opts, ", ")
}

// streamSteps builds the parser through the public options, lets it parse one stream after the other and checks each.
func (c streamConf) steps(w *World, start, done func(s *State)) seq {
	var q seq
	var opts, later, between []string
	for _, o := range c.opts {
		switch {
		case strings.HasPrefix(o, ".."):
			between = append(between, o)
		case o[0] == '.':
			later = append(later, o)
		default:
			opts = append(opts, o)
		}
	}
	q = append(q, func(s *State) bool { c.settings(s); return true })
	for _, o := range opts {
		o := o
		q = append(q, func(s *State) bool {
			switch o {
			case "listener":
				return s.callFn(w.fn("", "WithListener"), OpaqueFn{"listener"})
			case "besteffort":
				return s.callFn(w.fn("", "WithBestEffort"))
			case "otherlistener": // replaced by the one given later, must never be called
				return s.callFn(w.fn("", "WithListener"), OpaqueFn{"otherlistener"})
			case "othermax":
				return s.callFn(w.fn("", "WithMaxMessageLength"), con(1<<20))
			case "max":
				return s.callFn(w.fn("", "WithMaxMessageLength"), symLin(globalTab.named("MAX", minInt, maxInt-1)))
			case "LF", "NUL", "unknown":
				return s.callFn(w.fn(c.pkg, "WithTrailer"), con(map[string]int64{"LF": 0, "NUL": 1, "unknown": 7}[o]))
			}
			panic("option " + o)
		}, func(s *State) bool {
			l, _ := s.flags["opts"].(*ListC)
			if l == nil {
				l = &ListC{}
			}
			s.flags["opts"] = &ListC{e: append(append([]Val(nil), l.e...), s.ret0)}
			s.ret0 = nil
			return true
		})
	}
	q = append(q, func(s *State) bool {
		var a Val = NilV{}
		if l, ok := s.flags["opts"].(*ListC); ok {
			fn := w.fn("", "WithListener")
			a = s.listSlice(l, fn.Signature.Results().At(0).Type())
		}
		delete(s.flags, "opts")
		return s.callFn(w.fn(c.pkg, "NewParser"), a)
	}, func(s *State) bool {
		s.flags["parser"] = s.ret0
		s.ret0 = nil
		return true
	})
	set := func(l []string) {
		for _, o := range l {
			o := o
			q = append(q, func(s *State) bool {
				p := s.flags["parser"]
				switch strings.TrimLeft(o, ".") {
				case "listener", "otherlistener":
					return s.callMethod(p, "WithListener", OpaqueFn{strings.TrimLeft(o, ".")})
				case "besteffort":
					return s.callMethod(p, "WithBestEffort")
				case "max":
					return s.callMethod(p, "WithMaxMessageLength", symLin(globalTab.named("MAX", 0, 1<<40)))
				case "othermax":
					return s.callMethod(p, "WithMaxMessageLength", con(1<<20))
				}
				panic("setting " + o)
			})
		}
		q = append(q, func(s *State) bool {
			s.ret0 = nil
			return s.callMethod(s.flags["parser"], "HasBestEffort")
		}, func(s *State) bool {
			s.e.oblig["best effort flag"]++
			if b, ok := s.ret0.(BoolV); !ok {
				s.undecided("HasBestEffort gives %s", valKey(s.ret0))
			} else if bool(b) != (s.mode() == "best effort") {
				s.bad("options", "HasBestEffort reports %v, configured is %v", bool(b), !bool(b))
			}
			s.ret0 = nil
			return true
		})
	}
	set(later)
	loop := len(q)
	q = append(q, func(s *State) bool {
		t := w.pkgs[modPath+"/zzverifshim"].Type("Source").Type()
		start(s)
		if !s.e.visit(s) {
			panic(&stopReq{})
		}
		src := &IfaceV{types.NewPointer(t), PtrV{s.alloc(t, &StructV{}), ""}}
		return s.callMethod(s.flags["parser"], "Parse", src)
	}, func(s *State) bool {
		s.ret0 = nil
		done(s)
		s.e.verdicts["returns"]++
		first := s.flags["run"].(*Lin).c == 1
		s.flags["run"] = con(2)
		delete(s.flags, "endkind")
		if !first || between == nil {
			s.phase = loop - 1
			return true
		}
		c.settings(s)
		return true
	})
	if between != nil {
		set(between)
		q = append(q, func(s *State) bool {
			s.phase = loop - 1
			return true
		})
	}
	return q
}

// bad ends the path; what only a reused parser does is told apart.
func (s *State) bad(cat, format string, a ...interface{}) {
	if r, ok := s.flags["run"].(*Lin); ok && r.c > 1 {
		cat = "reuse"
	}
	s.violate(cat, format, a...)
}

// result gives the parts of a *syslog.Result.
func (s *State) result(v Val) (msg, err Val) {
	p, ok := v.(PtrV)
	if !ok {
		s.bad("listener", "the listener is given %s", valKey(v))
	}
	o := s.obj(p.obj)
	t, ok := o.typ.(types.Type)
	if !ok || o.typ == nil {
		s.undecided("result of unknown type")
	}
	st, ok := o.val.(*StructV)
	if !ok || p.path != "" {
		s.undecided("result in an unexpected form")
	}
	get := func(n string) Val {
		ix, _ := fieldPath(t, n)
		if ix == nil {
			s.undecided("result without %s", n)
		}
		return getPath(st, ix)
	}
	msg, err = get("Message"), get("Error")
	for _, x := range []Val{msg, err} {
		if st, ok := x.(StaleV); ok {
			s.bad("listener", "a result holds %s, a leftover", st.name)
		}
	}
	n := *o
	n.given = true
	s.heap[p.obj] = &n
	return msg, err
}

func isNilV(v Val) bool { _, ok := v.(NilV); return ok }

// dedupe removes what a reused parser does wrong just as a new one.
func (e *Engine) dedupe() {
	seen := map[string]bool{}
	for _, f := range e.findings {
		if f.cat != "reuse" {
			seen[f.msg] = true
		}
	}
	var l []*Finding
	for _, f := range e.findings {
		if f.cat == "reuse" && seen[f.msg] {
			continue
		}
		l = append(l, f)
	}
	e.findings = l
}

// optionFindings reports what goes wrong only with some combinations of options as a matter of the options too.
func (r *UnitResult) optionFindings(pkg string) {
	base := map[string]bool{}
	for _, o := range [][]string{{"listener"}, {"listener", "besteffort"}, {"besteffort", "listener"}} {
		base[streamConf{pkg: pkg, opts: o}.String()] = true
	}
	bad := map[string]bool{}
	for _, f := range r.Findings {
		if base[f.Config] {
			bad[f.Cat] = true
		}
	}
	for _, f := range r.Findings {
		if (f.Cat == "frame" || f.Cat == "fault" || f.Cat == "reuse" && strings.Contains(f.Config, "..")) && !bad[f.Cat] {
			f.Cat = "options"
			r.Findings = append(r.Findings, f)
		}
	}
}

func newStreamEngine(w *World, c streamConf) (*Engine, *State) {
	e := newEngine(w, "stream")
	e.config = c.String()
	e.anyText, e.loops = true, true
	e.access(nil)
	e.models = map[string]modelFunc{}
	for k, v := range w.models {
		e.models[k] = v
	}
	for _, n := range []string{"strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi"} {
		e.models[n] = e.models["stream "+n]
	}
	if f := w.methodOf("/rfc5424", "machine", "Parse"); f != nil {
		e.override[f] = innerParse(w)
	}
	sh := w.pkgs[modPath+"/zzverifshim"]
	if f := w.prog.LookupMethod(types.NewPointer(sh.Type("Source").Type()), sh.Pkg, "Read"); f != nil {
		e.override[f] = func(s *State, a []Val) Val {
			s.violate("chunk", "reads from the reader directly, so that results depend on how the data arrives")
			return nil
		}
	}
	s := w.initial(e)
	s.addStream("stream", nil)
	s.streams[blockStream].plain = true
	s.flags["run"] = con(1)
	return e, s
}

func (s *State) flagIs(k string) bool { return s.flags[k] == Val(BoolV(true)) }

var _ = fmt.Sprint
