package main

// Octet counting framing: reference automaton of a frame's header and check of the results.

import (
	"fmt"
	"go/token"
	"go/types"
)

// states of the reference automaton of a frame header
const (
	ocStart = iota // nothing of the frame read
	ocLen          // in MSGLEN
	ocSpace        // after the space
	ocBody         // the message begins
	ocFault        // the frame's header is malformed
	ocBad          // what follows the header is no message
	ocEnd          // the stream ended before the frame
)

type monOct struct {
	q   int
	tab *trTable
}

var octTab = newTrTable()

func newMonOct() *monOct { return &monOct{tab: octTab} }

func (m *monOct) next(c int) tr {
	digit := c >= '0' && c <= '9'
	switch m.q {
	case ocStart:
		switch {
		case c < 0:
			return tr{q: ocEnd}
		case digit && c != '0':
			return tr{q: ocLen}
		}
	case ocLen:
		switch {
		case digit:
			return tr{q: ocLen}
		case c == ' ':
			return tr{q: ocSpace, ev: "len"}
		}
	case ocSpace:
		if c == '<' {
			return tr{q: ocBody, ev: "body"}
		}
	case ocBody:
		return tr{q: ocBody}
	}
	switch m.q {
	case ocFault, ocBad:
		return tr{q: m.q}
	case ocSpace:
		return tr{q: ocBad, ev: "fault"}
	}
	return tr{q: ocFault, ev: "fault"}
}

func (m *monOct) faulty() bool { return m.q == ocFault || m.q == ocBad }

func (m *monOct) Label(c byte) int { return m.tab.id(m.next(int(c))) }
func (m *monOct) tr(label int) tr {
	if label == endLabel {
		return m.next(-1)
	}
	return m.tab.all[label]
}
func (m *monOct) Asks(ctx *MonCtx, label int) []*TermV { return nil }
func (m *monOct) Marks(label int, ans []bool) []Mark {
	switch m.tr(label).ev {
	case "len":
		return []Mark{{"LenEnd", 0}}
	case "body":
		return []Mark{{"Body", 0}}
	case "fault":
		return []Mark{{"Fault", 0}}
	}
	return nil
}
func (m *monOct) Step(ctx *MonCtx, label int, ans []bool) Mon {
	n := *m
	n.q = m.tr(label).q
	return &n
}
func (m *monOct) Key() string                             { return fmt.Sprintf("O%d", m.q) }
func (m *monOct) Exact() []string                         { return nil }
func (m *monOct) Initial() []string                       { return nil }
func (m *monOct) ByteSetAt(name string, off int) *ByteSet { return nil }
func (m *monOct) Range(a, b string) (int64, int64, bool)  { return 0, 0, false }
func (m *monOct) RangeMarks() []string                    { return nil }
func (m *monOct) Named() []NamedQ                         { return nil }
func (m *monOct) Subst(z *subst) Mon                      { return m }
func (m *monOct) Regs() []string                          { return nil }
func (m *monOct) Reg(r string) Val                        { return nil }
func (m *monOct) SetReg(r string, v Val) Mon              { return m }

// ahead is the state after the byte at the frontier when that has been seen.
func (m *monOct) ahead(s *State) int {
	t := s.streams[blockStream]
	switch t.status {
	case stEnd:
		s.finish(blockStream)
		return t.mon.(*monOct).q
	case stByte:
		groups := map[int]*ByteSet{}
		var ks []int
		for c := 0; c < 256; c++ {
			if t.set.has(c) {
				q := m.next(c).q
				if groups[q] == nil {
					groups[q] = &ByteSet{}
					ks = append(ks, q)
				}
				groups[q].add(c)
			}
		}
		if len(ks) > 1 {
			var alts []func(*State)
			for _, k := range ks {
				b := *groups[k]
				alts = append(alts, func(n *State) { n.streams[blockStream].set = b })
			}
			fork(alts...)
		}
		return ks[0]
	}
	return m.q
}

// octet is the check of one configuration.
type octet struct {
	c streamConf
}

func (h *octet) mon(s *State) *monOct { return s.streams[blockStream].mon.(*monOct) }

// size is the value of MSGLEN: a number below 2^60, or something larger.
func (h *octet) size(s *State) (kind string, n *Lin) {
	k, ok := s.flags["num"].(*StructV)
	if !ok {
		mk := func(kind string) func(*State) {
			return func(m *State) {
				y := symLin(globalTab.named("N", 1, maxInt-1))
				if kind != "small" {
					y = symLin(globalTab.named("NBIG", maxInt, maxInt))
				}
				m.flags["num"] = &StructV{[]Val{lit(kind), y}}
			}
		}
		fork(mk("small"), mk("big"), mk("overflow"))
	}
	kind, _ = k.f[0].(*Str).isLit()
	return kind, k.f[1].(*Lin)
}

func (h *octet) tooLong(s *State) bool {
	k, n := h.size(s)
	return k != "small" || s.cmp(token.GTR, n, s.flags["max"].(*Lin))
}

// number is the model of the conversion of MSGLEN.
func (h *octet) number(s *State, x *Str, signed bool) (Val, Val) {
	m := h.mon(s)
	fail := func() Val { return mkErr(lit("strconv: parsing: invalid syntax or value out of range")) }
	if m.faulty() || m.ahead(s) == ocFault || m.ahead(s) == ocBad {
		// the reference knows the frame to be malformed
		b, ok := s.flags["badnum"].(BoolV)
		if !ok {
			fork(func(n *State) { n.flags["badnum"] = BoolV(true) }, func(n *State) { n.flags["badnum"] = BoolV(false) })
		}
		v := symLin(globalTab.named("NBAD", 0, maxInt))
		if bool(b) {
			return v, fail()
		}
		return v, NilV{}
	}
	ok := false
	if len(x.p) == 1 && x.p[0].kind == 'S' && x.p[0].s == blockStream && x.p[0].a.eq(con(0)) {
		switch m.q {
		case ocLen:
			c, known := s.rel(x.p[0].b, blockStream)
			ok = known && c == 0 && m.ahead(s) != ocLen
		case ocSpace, ocBody:
			ok = s.norm(x.p[0].b.sub(s.posOf(blockStream, "LenEnd"))).eq(con(0))
		}
	}
	if !ok {
		s.bad("frame", "takes the length from %s, which is not MSGLEN", s.show(x))
	}
	k, n := h.size(s)
	if k == "overflow" {
		return n, fail()
	}
	return n, NilV{}
}

func (h *octet) beforeByte(s *State) {
	if s.flagIs("stop") {
		s.bad("fault", "reads on after the result that ends the parsing")
	}
	if b, ok := s.flags["blk"].(*StructV); ok && h.mon(s).q >= ocSpace {
		if b.f[blkFull] != Val(BoolV(true)) {
			s.bad("fault", "reads on after a frame that the end of the stream has cut")
		}
	}
	if h.mon(s).q == ocBody {
		s.bad("frame", "reads octets of a message as if they were framing")
	}
}

// take: the code moves behind n octets.
func (h *octet) take(s *State, text *Str, n *Lin) {
	m := h.mon(s)
	b := s.flags["blk"].(*StructV)
	if m.ahead(s) != ocBody || !h.atBody(s, b) {
		s.bad("frame", "skips %s octets where no message is", s.show(n))
	}
	if h.tooLong(s) {
		s.bad("fault", "takes a message that is longer than the maximum")
	}
	if _, l := h.size(s); !s.norm(l.sub(n)).eq(con(0)) {
		s.bad("frame", "takes %s octets as a message whose length is %s", s.show(n), s.show(l))
	}
	if _, ok := s.flags["pend"]; ok && s.listening() {
		s.bad("frame", "takes another message before the result of the last one is reported")
	}
	s.e.oblig["frame boundary"]++
	want := s.canon(text).(*Str).key()
	emitted := s.flagIs("emitted")
	for _, k := range []string{"blk", "emitted", "num", "badnum", "pend"} {
		delete(s.flags, k)
	}
	body := &Str{p: []Part{{kind: 'T', term: TokV{"BODY"}}}}
	s.dropBlockLen(blockStream, newMonOct(), func(x *Str) *Str {
		if s.canon(x).(*Str).key() == want {
			return body
		}
		return nil
	}, n, s.e.hooks.tokLen["BODY"])
	if !emitted {
		s.flags["pend"] = body
	}
	s.flags["frames"] = BoolV(true)
}

// atBody says whether a block was taken at the beginning of the message.
func (h *octet) atBody(s *State, b *StructV) bool {
	at := b.f[blkAt].(*Lin)
	if h.mon(s).q == ocBody {
		return s.norm(at.sub(s.posOf(blockStream, "Body"))).eq(con(0))
	}
	c, ok := s.rel(at, blockStream)
	return ok && c == 0 && h.mon(s).q == ocSpace
}

// emit checks a result given to the listener.
func (h *octet) emit(s *State, v Val) {
	e := s.e
	msg, err := s.result(v)
	e.oblig["result"]++
	noMsg := isNilV(msg)
	noErr := s.isNil(err)
	if noMsg && noErr {
		s.bad("listener", "a result has neither message nor error")
	}
	if s.flagIs("stop") {
		s.bad("fault", "reports a result after the one that ends the parsing")
	}
	whole := func(text *Str) {
		m, x, asked := s.parseOf(s.mode(), text)
		if !asked || !s.sameVal(msg, m) || !s.sameVal(err, x) {
			for _, op := range []string{"strict", "best effort"} {
				if m, x, asked := s.parseOf(op, text); asked && op != s.mode() && s.sameVal(msg, m) && s.sameVal(err, x) {
					s.bad("options", "parses messages in %s mode, configured is %s", op, s.mode())
				}
			}
			s.bad("frame", "the result (%s, %s) is not what the message parser gives for the frame's octets", s.show(msg), s.show(err))
		}
		if !noErr {
			e.verdicts["rejected"]++
			if s.mode() == "strict" {
				s.flags["stop"] = BoolV(true)
			}
		} else {
			e.verdicts["message"]++
		}
	}
	if p, ok := s.flags["pend"].(*Str); ok {
		delete(s.flags, "pend")
		whole(p)
		return
	}
	m := h.mon(s)
	q := m.ahead(s)
	fault := ""
	switch {
	case q == ocFault || q == ocBad:
		fault = "malformed"
	case q == ocEnd:
		if s.flagIs("frames") {
			s.bad("fault", "reports a result for the end of the stream after a complete frame")
		}
		fault = "empty"
	case q == ocSpace || q == ocBody:
		if h.tooLong(s) {
			fault = "too long"
		}
	}
	if fault == "" {
		b, ok := s.flags["blk"].(*StructV)
		if !ok || q != ocBody || !h.atBody(s, b) {
			s.bad("fault", "reports (%s, %s) although the frame is not malformed so far", s.show(msg), s.show(err))
		}
		_, l := h.size(s)
		if !s.norm(l.sub(b.f[blkN].(*Lin))).eq(con(0)) {
			s.bad("frame", "takes %s octets as a message whose length is %s", s.show(b.f[blkN]), s.show(l))
		}
		text := b.f[blkText].(*Str)
		if b.f[blkFull] == Val(BoolV(true)) {
			if s.flagIs("emitted") {
				s.bad("frame", "reports a frame twice")
			}
			s.flags["emitted"] = BoolV(true)
			whole(text)
			return
		}
		if s.mode() != "strict" {
			m, _, asked := s.parseOf(s.mode(), text)
			if !asked || !s.sameVal(msg, m) {
				s.bad("fault", "the message %s of a frame cut by the end is not the parse of what there is", s.show(msg))
			}
			if noErr {
				s.bad("fault", "a frame cut by the end is reported without error")
			}
			e.verdicts["cut"]++
			s.flags["stop"] = BoolV(true)
			return
		}
		fault = "cut"
	}
	e.verdicts[fault]++
	if noErr {
		s.bad("fault", "a malformed frame (%s) is reported without error", fault)
	}
	if t, ok := msg.(*TermV); ok && s.mode() != "strict" && t.op == "message" && valKey(t.args[0]) == valKey(lit(s.mode())) && q == ocBad {
		// best effort parses what it has of the message
		noMsg = true
	}
	if !noMsg {
		s.bad("fault", "a malformed frame (%s) is reported with the message %s", fault, s.show(msg))
	}
	s.flags["stop"] = BoolV(true)
}

// done checks the end of the parsing and prepares the next stream.
func (h *octet) done(s *State) {
	if s.listening() {
		if _, ok := s.flags["pend"]; ok {
			s.bad("frame", "the result of the last frame is not reported")
		}
		if !s.flagIs("stop") {
			m := h.mon(s)
			q := m.ahead(s)
			if q != ocEnd {
				if _, ok := s.flags["blk"].(*StructV); ok && !s.flagIs("emitted") {
					s.bad("fault", "parsing ends without a result for the last frame")
				}
				s.bad("fault", "parsing ends without a result for the fault or before the end of the stream")
			}
			if !s.flagIs("frames") {
				s.bad("fault", "no result for an empty stream")
			}
			s.e.verdicts["clean end"]++
		} else {
			s.e.verdicts["stopped"]++
		}
	}
	for _, k := range []string{"stop", "frames", "pend", "blk", "num", "badnum", "emitted"} {
		delete(s.flags, k)
	}
	s.dropBlock(blockStream, newMonOct(), nil)
	s.widen()
}

// hOctet analyses the octet counting parser with the given options.
func hOctet(w *World, opts ...string) *Engine {
	c := streamConf{"/octetcounting", opts, con(8192)}
	e, s := newStreamEngine(w, c)
	h := &octet{c: c}
	e.hooks = &streamHooks{
		blockSyms: map[string]bool{"N": true, "NBIG": true, "NBAD": true, "NBIG as int": true, "NBAD as int": true, "A": true, "LEN": true},
		blockToks: map[string]bool{"BODY": true},
		tokLen:    map[string]*Lin{"BODY": symLin(globalTab.named("LEN", 1, maxInt-1))},
		take:      h.take, number: h.number, beforeByte: h.beforeByte,
	}
	e.opaque = func(s *State, f OpaqueFn, a []Val) Val {
		s.heard(f)
		h.emit(s, a[0])
		return nil
	}
	e.script = c.steps(w, func(s *State) { s.streams[blockStream].mon = newMonOct() }, h.done).script
	if c.has("listener") || c.has("otherlistener") {
		e.mustVerdicts = []string{"message", "rejected", "cut", "malformed", "too long", "empty", "clean end", "stopped", "returns"}
	} else {
		e.mustVerdicts = []string{"returns"}
	}
	e.run(s)
	e.dedupe()
	return e
}

var _ = types.Typ

func init() {
	addUnit("stream-octet", func(w *World, r *UnitResult) {
		for _, o := range append(orders("besteffort", "max", "listener"), replaced...) {
			r.addEngine(hOctet(w, o...))
		}
		r.optionFindings("/octetcounting")
		r.Config = "octetcounting parser, all options, histories of streams"
	})
}
