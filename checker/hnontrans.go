package main

// Non-transparent framing: reference splitter and check of the results.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// states of the reference automaton of a line: what its first byte is
const (
	ntStart = iota
	ntLT
	ntOther
	ntEmpty
)

type monLine struct{ q int }

func (m *monLine) next(c int) int {
	switch {
	case m.q != ntStart:
		return m.q
	case c < 0:
		return ntEmpty
	case c == '<':
		return ntLT
	}
	return ntOther
}

func (m *monLine) Label(c byte) int                        { return m.next(int(c)) }
func (m *monLine) Asks(ctx *MonCtx, label int) []*TermV    { return nil }
func (m *monLine) Marks(label int, ans []bool) []Mark      { return nil }
func (m *monLine) Key() string                             { return fmt.Sprintf("L%d", m.q) }
func (m *monLine) Exact() []string                         { return nil }
func (m *monLine) Initial() []string                       { return nil }
func (m *monLine) ByteSetAt(name string, off int) *ByteSet { return nil }
func (m *monLine) Range(a, b string) (int64, int64, bool)  { return 0, 0, false }
func (m *monLine) RangeMarks() []string                    { return nil }
func (m *monLine) Named() []NamedQ                         { return nil }
func (m *monLine) Subst(z *subst) Mon                      { return m }
func (m *monLine) Regs() []string                          { return nil }
func (m *monLine) Reg(r string) Val                        { return nil }
func (m *monLine) SetReg(r string, v Val) Mon              { return m }
func (m *monLine) Step(ctx *MonCtx, label int, a []bool) Mon {
	if label == endLabel {
		return &monLine{m.next(-1)}
	}
	return &monLine{label}
}

// class is the kind of the first byte of the current line.
func (h *nontrans) class(s *State) int {
	t := s.streams[blockStream]
	m := t.mon.(*monLine)
	if m.q != ntStart {
		return m.q
	}
	s.query(blockStream)
	if t.status == stEnd {
		return ntEmpty
	}
	var lt, other ByteSet
	for c := 0; c < 256; c++ {
		if t.set.has(c) {
			if c == '<' {
				lt.add(c)
			} else {
				other.add(c)
			}
		}
	}
	if lt.empty() {
		return ntOther
	}
	if other.empty() {
		return ntLT
	}
	fork(func(n *State) { n.streams[blockStream].set = lt }, func(n *State) { n.streams[blockStream].set = other })
	return 0
}

// nontrans is the check of one configuration.
//
// Flags: cand is the message read so far with its trailer, out says that the message due is reported, line is the kind
// of the current line (terminated, rest, none), dead that the stream does not begin with a message.
type nontrans struct {
	c     streamConf
	delim int64
}

func (h *nontrans) trailer() *Str { return lit(string([]byte{byte(h.delim)})) }

// text is the current line without its trailer.
func (h *nontrans) text(s *State) *Str {
	if s.streams[blockStream].status == stEnd {
		return sliceOf(blockStream, con(0), s.canonLin(s.H(blockStream)))
	}
	return sliceOf(blockStream, con(0), symLin(globalTab.pos(blockStream, "End")))
}

func (h *nontrans) lineIs(s *State, k string) bool {
	x, ok := s.flags["line"].(*Str)
	return ok && valKey(x) == valKey(lit(k))
}

// due is the message that is complete, without its trailer.
func (h *nontrans) due(s *State) *Str {
	v, ok := s.flags["cand"].(*Str)
	if !ok {
		return nil
	}
	x := &Str{p: append([]Part(nil), v.p...)}
	l := &x.p[len(x.p)-1]
	if l.kind != 'L' {
		s.undecided("candidate in an unexpected form")
	}
	if l.lit = l.lit[:len(l.lit)-1]; l.lit == "" {
		x.p = x.p[:len(x.p)-1]
	}
	return x
}

// settle brings the reference over the current line.
func (h *nontrans) settle(s *State) {
	cls := h.class(s)
	cand, alive := s.flags["cand"].(*Str)
	if !h.lineIs(s, "terminated") {
		s.undecided("settling the end")
	}
	line := concat(h.text(s), h.trailer())
	switch {
	case s.flagIs("dead"):
		s.e.verdicts["dead"]++
	case cls == ntLT:
		if alive && !s.flagIs("out") && s.listening() {
			s.bad("frame", "a message that is complete is not reported before the next line is read")
		}
		cand = line
	case alive:
		cand = concat(cand, line)
		s.e.verdicts["joined"]++
	default:
		s.flags["dead"] = BoolV(true)
	}
	delete(s.flags, "out")
	delete(s.flags, "line")
	if cand != nil {
		s.flags["cand"] = cand
		full, part := s.canon(cand).(*Str).key(), s.canon(h.due(s)).(*Str).key()
		c := &Str{p: []Part{{kind: 'T', term: TokV{"MESSAGE"}}}}
		s.dropBlock(blockStream, &monLine{}, func(x *Str) *Str {
			switch s.canon(x).(*Str).key() {
			case full:
				return concat(c, h.trailer())
			case part:
				return c
			}
			return nil
		})
	} else {
		s.dropBlock(blockStream, &monLine{}, nil)
	}
}

// line is the next line the reader gives, and its error.
func (h *nontrans) line(s *State, delim *Lin) (*Str, Val) {
	if !s.cmp(token.EQL, delim, con(h.delim)) {
		s.bad("frame", "splits the stream at byte %s, the trailer is %d", s.show(delim), h.delim)
	}
	if s.flagIs("ended") {
		return emptyStr, s.endErr()
	}
	if _, ok := s.flags["line"]; ok {
		h.settle(s)
		s.e.oblig["line"]++
	}
	if s.flags["kind"] == nil {
		fork(func(n *State) { n.flags["kind"] = lit("terminated") }, func(n *State) { n.flags["kind"] = lit("rest") })
	}
	if valKey(s.flags["kind"]) == valKey(lit("terminated")) {
		delete(s.flags, "kind")
		s.flags["line"] = lit("terminated")
		return concat(h.text(s), h.trailer()), NilV{}
	}
	err := s.endErr()
	s.query(blockStream)
	empty := s.streams[blockStream].status == stEnd
	delete(s.flags, "kind")
	s.flags["ended"] = BoolV(true)
	if empty {
		s.flags["line"] = lit("none")
		return emptyStr, err
	}
	s.flags["line"] = lit("rest")
	return h.text(s), err
}

// ownField is the path of a field of a struct type, exported or not.
func ownField(t types.Type, name string) []int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}
		}
	}
	return nil
}

// read is the model of the reader of lines.
func (h *nontrans) read(w *World) modelFunc {
	return func(s *State, a []Val) Val {
		r := s.ptr(a[0])
		ro := s.obj(r.obj)
		get := func(o *Obj, v Val, n string) Val {
			ix := ownField(o.typ, n)
			if ix == nil {
				s.undecided("line reader without %s", n)
			}
			return getPath(v, ix)
		}
		if r.path != "" {
			s.undecided("line reader in an unexpected form")
		}
		st := s.ptr(get(ro, ro.val, "parsingState"))
		so := s.obj(st.obj)
		if st.path != "" {
			s.undecided("line reader in an unexpected form")
		}
		set := func(n string, v Val) {
			so := s.obj(st.obj)
			ix := ownField(so.typ, n)
			s.setVal(st.obj, setPath(so.val, ix, v))
		}
		p := s.intv(get(so, so.val, "p"))
		win, ok := get(so, so.val, "data").(*SliceV)
		if !ok {
			s.undecided("line reader without window")
		}
		old, ok := s.obj(win.obj).val.(*Str)
		if !ok {
			s.undecided("line reader without window")
		}
		bt := s.obj(win.obj).typ
		n := s.known(win).len
		if !s.cmp(token.EQL, n, con(0)) {
			if s.cmp(token.EQL, p, con(0)) {
				// nothing was taken: the next line is added
				set("p", con(0))
			} else if s.cmp(token.EQL, p, n) {
				// everything was taken: the memory is used again
				s.setVal(win.obj, &Str{p: []Part{{kind: 'T', term: StaleV{"a slice of the read window"}}}})
				o := s.alloc(bt, emptyStr)
				set("p", con(0))
				set("pe", con(0))
				set("data", &SliceV{o, con(0), con(-1), con(-1)})
				old = emptyStr
				panic(&forkReq{alts: []func(*State){func(*State) {}}})
			} else {
				s.undecided("the window of the line reader is taken in part")
			}
		}
		text, err := h.line(s, s.intv(get(ro, ro.val, "delim")))
		so = s.obj(st.obj)
		win = get(so, so.val, "data").(*SliceV)
		old = s.obj(win.obj).val.(*Str)
		if len(old.p) == 0 {
			set("p", s.H(blockStream))
		}
		data := concat(old, text)
		set("data", &SliceV{s.alloc(bt, data), con(0), con(-1), con(-1)})
		set("pe", s.strLen(data))
		line := Val(&SliceV{s.alloc(bt, text), con(0), con(-1), con(-1)})
		if isNilV(err) {
			return &TupleV{[]Val{line, NilV{}}}
		}
		msg := &Str{p: []Part{{kind: 'T', term: TokV{"the reader's error"}}}}
		if x, _ := s.flags["endkind"].(*Str).isLit(); x == "EOF" {
			msg = lit("EOF")
			if h.lineIs(s, "rest") {
				msg = lit("unexpected EOF")
			}
			set("eof", s.strLen(data))
		}
		s.flags["endtext"] = msg
		rt := w.prog.ImportedPackage("github.com/leodido/ragel-machinery").Type("ReadingError").Type()
		return &TupleV{[]Val{line, &IfaceV{types.NewPointer(rt), PtrV{s.alloc(rt, &StructV{[]Val{msg}}), ""}}}}
	}
}

// emit checks a result given to the listener.
func (h *nontrans) emit(s *State, v Val) {
	msg, err := s.result(v)
	s.e.oblig["result"]++
	noErr := s.isNil(err)
	if isNilV(msg) && noErr {
		s.bad("listener", "a result has neither message nor error")
	}
	is := func(text *Str) (ok bool, rejected bool) {
		m, x, asked := s.parseOf(s.mode(), text)
		if asked && s.sameVal(msg, m) && s.sameVal(err, x) {
			return true, !s.isNil(x)
		}
		for _, op := range []string{"strict", "best effort"} {
			if m, x, asked := s.parseOf(op, text); asked && op != s.mode() && s.sameVal(msg, m) && s.sameVal(err, x) {
				s.bad("options", "parses messages in %s mode, configured is %s", op, s.mode())
			}
		}
		return false, false
	}
	due := h.due(s)
	alive := due != nil && !s.flagIs("out")
	switch {
	case s.flags["line"] == nil:
		s.bad("frame", "reports a result before a line is read")
	case h.lineIs(s, "terminated"):
		if !alive || h.class(s) != ntLT {
			s.bad("frame", "reports (%s, %s) where no message is complete", s.show(msg), s.show(err))
		}
	case alive:
	case h.lineIs(s, "rest") && !s.flagIs("last"):
		m, x, asked := s.parseOf(s.mode(), h.text(s))
		if !asked || !s.sameVal(msg, m) {
			s.bad("fault", "the message %s reported for the bytes after the last trailer is not their parse", s.show(msg))
		}
		if noErr {
			s.bad("fault", "bytes after the last trailer are reported without error")
		}
		if !s.isNil(x) {
			if !s.sameVal(err, x) {
				s.bad("fault", "the error %s reported for the bytes after the last trailer is not the parser's", s.show(err))
			}
		} else if got := s.errText(err); got == nil || valKey(s.canon(got)) != valKey(s.flags["endtext"]) {
			s.bad("fault", "the error %s reported for the bytes after the last trailer is not the reader's", s.show(err))
		}
		s.flags["last"] = BoolV(true)
		s.e.verdicts["rest"]++
		return
	default:
		s.bad("fault", "reports (%s, %s) although everything is reported", s.show(msg), s.show(err))
	}
	ok, rejected := is(due)
	if !ok {
		s.bad("frame", "the result (%s, %s) is not what the message parser gives for the message %s", s.show(msg), s.show(err), s.show(due))
	}
	s.flags["out"] = BoolV(true)
	if rejected {
		s.e.verdicts["rejected"]++
	} else {
		s.e.verdicts["message"]++
	}
}

// errText is the text of an error the reader made.
func (s *State) errText(v Val) *Str {
	iv, ok := v.(*IfaceV)
	if !ok {
		return nil
	}
	p, ok := iv.val.(PtrV)
	if !ok || p.path != "" {
		return nil
	}
	st, ok := s.obj(p.obj).val.(*StructV)
	if !ok || len(st.f) == 0 {
		return nil
	}
	x, _ := st.f[0].(*Str)
	return x
}

// done checks the end of the parsing and prepares the next stream.
func (h *nontrans) done(s *State) {
	if s.listening() {
		if !s.flagIs("ended") {
			s.bad("frame", "parsing ends before the end of the stream")
		}
		if s.flags["cand"] != nil && !s.flagIs("out") {
			s.bad("fault", "parsing ends without a result for the last message")
		}
		if h.lineIs(s, "rest") && !s.flagIs("last") {
			s.bad("fault", "parsing ends without a result for the bytes after the last trailer")
		}
		if h.lineIs(s, "none") {
			s.e.verdicts["clean end"]++
		}
	}
	for _, k := range []string{"ended", "cand", "out", "line", "last", "dead", "endtext", "kind"} {
		delete(s.flags, k)
	}
	s.dropBlock(blockStream, &monLine{}, nil)
	s.widen()
}

// hNontrans analyses the non-transparent parser with the given options.
func hNontrans(w *World, opts ...string) *Engine {
	c := streamConf{"/nontransparent", opts, con(10)}
	e, s := newStreamEngine(w, c)
	h := &nontrans{c: c, delim: 10}
	for _, o := range opts {
		switch o {
		case "LF":
			h.delim = 10
		case "NUL":
			h.delim = 0
		}
	}
	s.streams[blockStream].without.add(int(h.delim))
	e.hooks = &streamHooks{
		blockSyms: map[string]bool{"CLEN": true},
		blockToks: map[string]bool{"MESSAGE": true},
		tokLen:    map[string]*Lin{"MESSAGE": symLin(globalTab.named("CLEN", 1, maxInt-1))},
		readBytes: h.line,
	}
	e.shortStart = true
	e.opaque = func(s *State, f OpaqueFn, a []Val) Val {
		s.heard(f)
		h.emit(s, a[0])
		return nil
	}
	pk := w.prog.ImportedPackage("github.com/leodido/ragel-machinery/parser")
	if pk != nil {
		if t := pk.Type("DelimitedReader"); t != nil {
			if f := w.prog.LookupMethod(types.NewPointer(t.Type()), pk.Pkg, "Read"); f != nil {
				e.override[f] = h.read(w)
			}
		}
	}
	e.script = c.steps(w, func(s *State) { s.streams[blockStream].mon = &monLine{} }, h.done).script
	e.mustVerdicts = []string{"returns"}
	if c.has("listener") || c.has("otherlistener") {
		e.mustVerdicts = []string{"message", "rejected", "joined", "dead", "rest", "clean end", "returns"}
	}
	e.run(s)
	e.dedupe()
	return e
}

func init() {
	addUnit("stream-nontransparent", func(w *World, r *UnitResult) {
		l := [][]string{{}}
		for _, t := range []string{"NUL", "LF", "unknown"} { // {} and NUL come first: the others are compared with them
			l = append(l, orders(t)...)
		}
		l = append(l, orders("listener", "besteffort", "max")...)
		for _, t := range []string{"NUL", "LF", "unknown"} {
			for _, o := range orders("listener", "besteffort", "max", t) {
				if len(o) > 1 && has(o, t) {
					l = append(l, o)
				}
			}
		}
		for _, t := range orders("NUL", "LF", "unknown") {
			if len(t) == 2 {
				l = append(l, append(append([]string(nil), t...), "listener"), []string{t[0], "listener", "besteffort", t[1]})
			}
		}
		l = append(l, replaced...)
		seen := map[string]bool{}
		for _, o := range l {
			if k := strings.Join(o, " "); seen[k] {
				continue
			} else {
				seen[k] = true
			}
			r.addEngine(hNontrans(w, o...))
		}
		r.optionFindings("/nontransparent")
		r.Config = "nontransparent parser, all options, histories of streams"
	})
}
