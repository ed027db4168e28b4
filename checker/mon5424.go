package main

// Reference automaton of RFC 5424 messages (property C01..C06).

import (
	"fmt"
	"strconv"
	"strings"
)

// control states
const (
	qStart = iota
	qPri
	qVer0
	qVer
	qTs
	qTsDash
	qF // header field; sub = field number, n = characters read
	qSD0
	qSDDash
	qId
	qPn
	qPq
	qPv
	qEsc
	qPd
	qEl
	qMsg
	qBom1
	qBom2
	qMsgU
	qFail
	qDone
)

type fieldSpec struct {
	name, err string
	max       int
}

type conf5424 struct {
	s         int
	compliant bool
	text      func(name string) string // text of an exported error constant
	col       string                   // template of the column suffix
	tab       *trTable
	fields    []fieldSpec
	pri, prip *Sym
	ver, verp *Sym
}

type mon5424 struct {
	c         *conf5424
	q, n, sub int
	fk        [4]bool // header fields read
	ts        int     // 0 none, 1 nil, 2 set
	pri, ver  Val
	verSet    bool
	sd        Val // completed elements
	cur       Val // parameters of the element being read
	esc       Val // backslashes of the value being read
	inEl      bool
	hasSD     bool
	msg       int    // 0 none, 1 to the end, 2 up to the error
	err       string // "": accepted
	altPn     bool   // an earlier parameter of the same name may have gone
}

func newMon5424(s int, compliant bool, text func(string) string, col string) *mon5424 {
	c := &conf5424{s: s, compliant: compliant, text: text, col: col, tab: newTrTable()}
	c.fields = []fieldSpec{{"Host", "ErrHostname", 255}, {"App", "ErrAppname", 48}, {"Proc", "ErrProcID", 128}, {"Mid", "ErrMsgID", 32}}
	p := "s" + strconv.Itoa(s)
	c.pri = globalTab.named(p+"PRI", 0, 191)
	c.prip = globalTab.named(p+"PRIp", 1, 19)
	c.ver = globalTab.named(p+"VER", 1, 999)
	c.verp = globalTab.named(p+"VERp", 1, 99)
	return &mon5424{c: c, sd: &MapC{}, cur: &MapC{}, esc: &ListC{}}
}

// next is the transition on byte c (or -1 for the end).
func (m *mon5424) next(c int) tr {
	fail := func(err, ev string) tr {
		if ev != "" {
			ev = " " + ev
		}
		return tr{q: qFail, ev: "@Err" + ev, err: err}
	}
	switch m.q {
	case qStart:
		if c == '<' {
			return tr{q: qPri, ev: "+Pri"}
		}
		return fail("ErrPri", "")
	case qPri:
		if n, ok := privalNext(m.n, c); ok {
			if m.n == 0 {
				return tr{q: qPri, n: n, ev: "pri"}
			}
			return tr{q: qPri, n: n, ev: "pri+"}
		}
		if c == '>' && m.n > 0 {
			return tr{q: qVer0, ev: "@PriEnd +Ver"}
		}
		return fail("ErrPrival", "")
	case qVer0:
		if c >= '1' && c <= '9' {
			return tr{q: qVer, n: 1, ev: "ver"}
		}
		return fail("ErrVersion", "")
	case qVer:
		if isDigit(c) && m.n < 3 {
			return tr{q: qVer, n: m.n + 1, ev: "ver+"}
		}
		if c == ' ' {
			return tr{q: qTs, ev: "@VerEnd +Ts"}
		}
		if m.n == 1 {
			return fail("ErrParse", "@VerEnd") // as the test suite has it
		}
		return fail("ErrVersion", "@VerEnd")
	case qTs:
		if m.n == 0 && c == '-' {
			return tr{q: qTsDash}
		}
		if m.n == tsDone {
			if c == ' ' {
				return tr{q: qF, ev: "@TsEnd tsend +Host"}
			}
			return fail("ErrParse", "@TsEnd tsend")
		}
		if c >= 0 {
			if n, sub, ok := tsNext(m.n, m.sub, c, 6); ok {
				return tr{q: qTs, n: n, sub: sub}
			}
		}
		return fail("ErrTimestamp", "")
	case qTsDash:
		if c == ' ' {
			return tr{q: qF, ev: "+Host tsnil"}
		}
		return fail("ErrParse", "")
	case qF:
		f := m.c.fields[m.sub]
		if isGraph(c) && m.n < f.max {
			return tr{q: qF, n: m.n + 1, sub: m.sub}
		}
		if c == ' ' && m.n > 0 {
			if m.sub == 3 {
				return tr{q: qSD0, ev: "@MidEnd fend"}
			}
			return tr{q: qF, sub: m.sub + 1, ev: "@" + f.name + "End fend +" + m.c.fields[m.sub+1].name}
		}
		return fail(f.err, "")
	case qSD0:
		switch c {
		case '-':
			return tr{q: qSDDash}
		case '[':
			return tr{q: qId, ev: "+Id el"}
		}
		return fail("ErrStructuredData", "")
	case qSDDash:
		switch c {
		case ' ':
			return tr{q: qMsg, ev: "+Msg"}
		case -1:
			return tr{q: qDone}
		}
		return fail("ErrParse", "")
	case qId:
		if isName(c) && m.n < 32 {
			return tr{q: qId, n: m.n + 1}
		}
		if m.n > 0 {
			switch c {
			case ' ':
				return tr{q: qPn, ev: "@IdEnd idend +Pn"}
			case ']':
				return tr{q: qEl, ev: "@IdEnd idend elend"}
			}
			return fail("ErrSdID", "@IdEnd idend idfail")
		}
		return fail("ErrSdID", "")
	case qPn:
		if isName(c) && m.n < 32 {
			return tr{q: qPn, n: m.n + 1}
		}
		if c == '=' && m.n > 0 {
			return tr{q: qPq, ev: "@PnEnd"}
		}
		return fail("ErrSdParam", "")
	case qPq:
		if c == '"' {
			return tr{q: qPv, ev: "+Pv pv"}
		}
		return fail("ErrSdParam", "alt")
	case qPv:
		if m.n == u0 {
			switch c {
			case '"':
				return tr{q: qPd, ev: "@PvEnd param"}
			case '\\':
				return tr{q: qEsc, ev: "esc"}
			case ']':
				return fail("ErrEscape", "")
			}
			if u := utf8Next(u0, c); u >= 0 {
				return tr{q: qPv, n: u}
			}
			return fail("ErrEscape", "")
		}
		if u := utf8Next(m.n, c); u >= 0 {
			return tr{q: qPv, n: u}
		}
		return fail("ErrSdParam", "alt")
	case qEsc:
		switch c {
		case '"', '\\', ']':
			return tr{q: qPv}
		}
		return fail("ErrEscape", "")
	case qPd:
		switch c {
		case ' ':
			return tr{q: qPn, ev: "+Pn"}
		case ']':
			return tr{q: qEl, ev: "elend"}
		}
		return fail("ErrSdParam", "undo")
	case qEl:
		switch c {
		case '[':
			return tr{q: qId, ev: "+Id el"}
		case ' ':
			return tr{q: qMsg, ev: "+Msg"}
		case -1:
			return tr{q: qDone}
		}
		return fail("ErrStructuredData", "")
	case qMsg:
		if c < 0 {
			if m.n == 0 {
				return tr{q: qDone}
			}
			return tr{q: qDone, ev: "msg"}
		}
		if m.c.compliant && m.n == 0 && c == 0xEF {
			return tr{q: qBom1}
		}
		return tr{q: qMsg, n: 1}
	case qBom1:
		if c < 0 {
			return tr{q: qDone, ev: "msg"}
		}
		if c == 0xBB {
			return tr{q: qBom2}
		}
		return tr{q: qMsg, n: 1}
	case qBom2:
		if c < 0 {
			return tr{q: qDone, ev: "msg"}
		}
		if c == 0xBF {
			return tr{q: qMsgU}
		}
		return tr{q: qMsg, n: 1}
	case qMsgU:
		if c < 0 && m.n == u0 {
			return tr{q: qDone, ev: "msg"}
		}
		if u := utf8Next(m.n, c); u >= 0 {
			return tr{q: qMsgU, n: u}
		}
		return fail("ErrMsgNotCompliant", "msgerr")
	}
	return tr{q: m.q}
}

func (m *mon5424) settled() bool { return m.q == qFail || m.q == qDone }

func (m *mon5424) Label(c byte) int { return m.c.tab.id(m.next(int(c))) }

func (m *mon5424) tr(label int) tr {
	if label == endLabel {
		return m.next(-1)
	}
	return m.c.tab.all[label]
}

func sliceOf(s int, a, b *Lin) *Str {
	r := &Str{}
	r.push(Part{kind: 'S', s: s, a: a, b: b})
	return r
}

func haskey(tok TokV, k *Str) *TermV { return &TermV{op: "haskey", args: []Val{tok, k}} }

func emptyMap(v Val) bool {
	m, ok := v.(*MapC)
	return ok && m.tok == nil && len(m.ops) == 0
}

func (m *mon5424) Asks(ctx *MonCtx, label int) []*TermV {
	t := m.tr(label)
	s := ctx.s
	switch {
	case t.has("tsend"):
		return []*TermV{timeOK(rfc3339micro, sliceOf(m.c.s, s.posOf(m.c.s, "Ts"), s.H(m.c.s)))}
	case t.has("idend") && !emptyMap(m.sd):
		return []*TermV{haskey(TokV{"SD"}, sliceOf(m.c.s, s.posOf(m.c.s, "Id"), s.H(m.c.s)))}
	}
	return nil
}

const rfc3339micro = "2006-01-02T15:04:05.999999Z07:00"

// Before renames the value of the digits read so far when another digit follows.
func (m *mon5424) Before(ctx *MonCtx, label int) {
	t := m.tr(label)
	var from, to *Sym
	switch {
	case t.has("pri+"):
		from, to = m.c.pri, m.c.prip
	case t.has("ver+"):
		from, to = m.c.ver, m.c.verp
	default:
		return
	}
	renamePrefix(ctx.s, from, to)
}

func (m *mon5424) Marks(label int, ans []bool) []Mark {
	t := m.tr(label)
	r := t.marks()
	if t.has("tsend") && !ans[0] || t.has("idend") && len(ans) > 0 && ans[0] {
		// the transition turns into an error
		q := []Mark{{"Err", 0}}
		for _, k := range r {
			if k.off == 0 && k.name != "Err" {
				q = append(q, k)
			}
		}
		return q
	}
	return r
}

func (m *mon5424) Step(ctx *MonCtx, label int, ans []bool) Mon {
	t := m.tr(label)
	n := *m
	n.q, n.n, n.sub = t.q, t.n, t.sub
	s := ctx.s
	st := m.c.s
	if t.err != "" {
		n.err = t.err
	}
	if t.ev == "" {
		return &n
	}
	for _, ev := range strings.Split(t.ev, " ") {
		switch ev {
		case "pri", "pri+":
			n.pri = symLin(m.c.pri)
		case "ver", "ver+":
			n.ver = symLin(m.c.ver)
			n.verSet = true
		case "tsnil":
			n.ts = 1
		case "tsend":
			n.ts = 2
			if !ans[0] {
				n.ts = 3
				n.q, n.n, n.sub = qFail, 0, 0
				n.err = "time"
			}
		case "fend":
			n.fk[m.sub] = true
		case "el":
			n.inEl = false
		case "idend":
			if len(ans) > 0 && ans[0] {
				n.q, n.n, n.sub = qFail, 0, 0
				n.err = "ErrSdIDDuplicated"
				return &n
			}
			if t.has("idfail") {
				continue
			}
			n.inEl = true
			n.hasSD = true
			n.cur = &MapC{}
		case "elend":
			id := sliceOf(st, s.posOf(st, "Id"), s.posOf(st, "IdEnd"))
			n.sd = s.mapPut(asMap(n.sd), id, n.cur)
			n.inEl = false
		case "pv":
			n.esc = &ListC{}
		case "esc":
			l := n.esc.(*ListC)
			n.esc = &ListC{tok: l.tok, e: append(append([]Val(nil), l.e...), s.H(st))}
		case "param":
			v := sliceOf(st, s.posOf(st, "Pv"), s.H(st))
			if l := n.esc.(*ListC); l.tok != nil || len(l.e) > 0 {
				v = unescaped(v, l)
			}
			n.cur = s.mapPut(asMap(n.cur), sliceOf(st, s.posOf(st, "Pn"), s.posOf(st, "PnEnd")), v)
		case "undo":
			// the last parameter is dropped
			n.cur = s.mapWithout(asMap(n.cur), sliceOf(st, s.posOf(st, "Pn"), s.posOf(st, "PnEnd")))
		case "alt":
			n.altPn = true
		case "msg":
			n.msg = 1
		case "msgerr":
			n.msg = 2
		}
	}
	return &n
}

// unescaped is the value v without the backslashes at the positions in l.
func unescaped(v *Str, l *ListC) *Str {
	return &Str{p: []Part{{kind: 'T', term: &TermV{op: "unescape", args: []Val{v, l}}}}}
}

func asMap(v Val) *MapC {
	if m, ok := v.(*MapC); ok {
		return m
	}
	return &MapC{tok: v}
}

func (s *State) mapWithout(c *MapC, k Val) *MapC {
	n := &MapC{tok: c.tok}
	for _, o := range c.ops {
		if !s.keyEq(o.key, k) {
			n.ops = append(n.ops, o)
		}
	}
	if c.tok != nil {
		n.ops = append(n.ops, mapOp{del: true, key: k})
	}
	return n
}

func (m *mon5424) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "M%d.%d.%d.%v.%d.%v.%v.%v.%d.%s.%v;", m.q, m.n, m.sub, m.fk, m.ts, m.verSet, m.inEl, m.hasSD, m.msg, m.err, m.altPn)
	for _, v := range []Val{m.pri, m.ver, m.sd, m.cur, m.esc} {
		writeVal(&b, v)
		b.WriteByte(';')
	}
	return b.String()
}

func (m *mon5424) Exact() []string {
	switch {
	case m.q == qPri:
		return []string{"Pri"}
	case m.q == qVer:
		return []string{"Ver"}
	}
	return nil
}
func (m *mon5424) Initial() []string { return nil }

func (m *mon5424) ByteSetAt(name string, off int) *ByteSet {
	for _, f := range m.c.fields {
		if name == f.name && off == 0 {
			var r ByteSet
			for c := 33; c < 127; c++ {
				r.add(c)
			}
			return &r
		}
	}
	return nil
}

func (m *mon5424) Range(a, b string) (int64, int64, bool) {
	for i, f := range m.c.fields {
		if a == f.name+"End" && b == f.name {
			if m.fk[i] {
				return 1, int64(f.max), true
			}
			return 0, 0, false
		}
	}
	switch {
	case a == "IdEnd" && b == "Id", a == "PnEnd" && b == "Pn", a == "IdEnd'" && b == "Id'", a == "PnEnd'" && b == "Pn'":
		return 1, 32, true
	case a == "PvEnd" && b == "Pv":
		return 0, maxInt, true
	case a == "TsEnd" && b == "Ts":
		return 20, 32, true
	case a == "Msg" && b == "Start":
		return 16, maxInt, true
	case a == "H" && b == "Msg":
		if m.q == qMsgU || m.msg == 2 {
			return 3, maxInt, true
		}
		return 0, 0, false
	case a == "Err" && b == "Msg":
		if m.msg == 2 {
			return 3, maxInt, true // after the mark
		}
		return 0, 0, false
	case a == "VerEnd" && b == "Ver":
		return 1, 3, true
	case a == "PriEnd" && b == "Pri":
		return 1, 3, true
	}
	return 0, 0, false
}

func (m *mon5424) RangeMarks() []string { return nil }

func (m *mon5424) Named() []NamedQ {
	var r []NamedQ
	switch m.q {
	case qPri:
		if m.n > 0 {
			r = append(r, NamedQ{m.c.pri, "Pri", "H"})
		}
	case qVer:
		r = append(r, NamedQ{m.c.ver, "Ver", "H"})
	}
	if m.q > qPri && m.pri != nil {
		r = append(r, NamedQ{m.c.pri, "Pri", "PriEnd"})
	}
	if m.q > qVer && m.verSet {
		r = append(r, NamedQ{m.c.ver, "Ver", "VerEnd"})
	}
	return r
}

func (m *mon5424) Subst(z *subst) Mon {
	n := *m
	ch := false
	for _, p := range []*Val{&n.pri, &n.ver, &n.sd, &n.cur, &n.esc} {
		if *p != nil {
			if v := z.do(*p); v != *p {
				*p = v
				ch = true
			}
		}
	}
	if !ch {
		return m
	}
	return &n
}

func (m *mon5424) Regs() []string { return []string{"ESC", "CUR", "SD"} }
func (m *mon5424) Reg(r string) Val {
	switch r {
	case "SD":
		return m.sd
	case "CUR":
		return m.cur
	}
	return m.esc
}
func (m *mon5424) SetReg(r string, v Val) Mon {
	n := *m
	switch r {
	case "SD":
		n.sd = v
	case "CUR":
		n.cur = v
	case "ESC":
		n.esc = v
	}
	return &n
}
