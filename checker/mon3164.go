package main

// Reference automaton of RFC 3164 messages (properties C07, C08, C09).

import (
	"fmt"
	"strconv"
	"strings"
)

const (
	rStart = iota
	rPri
	rTs0
	rStamp
	r3339
	rHost
	rMsg
	rFail
	rDone
)

// phases of the message text
const (
	phTag    = 0
	phPlain  = 1
	phPid    = 2 // inside brackets, the text so far could also be a plain message
	phPidX   = 3 // inside brackets, control bytes seen
	phClose  = 4
	phCloseX = 5
	phColon  = 6
	phColonX = 7
	phSp     = 8
	phSpX    = 9
	phRest   = 10
)

const timeStamp = "Jan _2 15:04:05"

type conf3164 struct {
	s         int
	rfc3339   bool
	tab       *trTable
	pri, prip *Sym
}

type mon3164 struct {
	c         *conf3164
	q, n, sub int
	pri       Val
	priSet    bool
	ts        int // 0 none, 1 stamp, 2 rfc3339
	host      bool
	tag, pid  bool // the process id is not empty
	rest      bool // the message starts after the tag
	inMsg     bool
	err       string
}

func newMon3164(s int, rfc3339 bool) *mon3164 {
	c := &conf3164{s: s, rfc3339: rfc3339, tab: newTrTable()}
	p := "s" + strconv.Itoa(s)
	c.pri = globalTab.named(p+"PRI", 0, 191)
	c.prip = globalTab.named(p+"PRIp", 1, 19)
	return &mon3164{c: c}
}

var monthPrefix = func() []string {
	seen := map[string]bool{}
	r := []string{""}
	for _, m := range []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"} {
		for i := 1; i <= 2; i++ {
			if !seen[m[:i]] {
				seen[m[:i]] = true
				r = append(r, m[:i])
			}
		}
	}
	return r
}()

const months = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec"

// stampNext is the automaton of `Mmm dd hh:mm:ss`; 15 is complete.
func stampNext(n, sub, c int) (int, int, bool) {
	if c < 0 {
		return 0, 0, false
	}
	dig := isDigit(c)
	switch n {
	case 0, 1, 2:
		p := monthPrefix[sub] + string(rune(c))
		if n == 2 {
			for _, m := range strings.Fields(months) {
				if m == p {
					return 3, 0, true
				}
			}
			return 0, 0, false
		}
		for i, q := range monthPrefix {
			if q == p && len(q) == n+1 && c < 128 {
				return n + 1, i, true
			}
		}
		return 0, 0, false
	case 3, 6:
		return n + 1, 0, c == ' '
	case 4:
		switch c {
		case ' ':
			return 5, 0, true
		case '1', '2':
			return 5, 1, true
		case '3':
			return 5, 2, true
		}
		return 0, 0, false
	case 5:
		switch sub {
		case 0:
			return 6, 0, c >= '1' && c <= '9'
		case 1:
			return 6, 0, dig
		}
		return 6, 0, c == '0' || c == '1'
	case 7:
		if c == '0' || c == '1' {
			return 8, 0, true
		}
		return 8, 1, c == '2'
	case 8:
		if sub == 0 {
			return 9, 0, dig
		}
		return 9, 0, c >= '0' && c <= '3'
	case 9, 12:
		return n + 1, 0, c == ':'
	case 10, 13:
		return n + 1, 0, c >= '0' && c <= '5'
	case 11, 14:
		return n + 1, 0, dig
	}
	return 0, 0, false
}

func isVisible(c int) bool { return c >= 32 && c <= 126 || c >= 0x80 }

func (m *mon3164) next(c int) tr {
	fail := func(err string) tr { return tr{q: rFail, ev: "@Err", err: err} }
	switch m.q {
	case rStart:
		if c == '<' {
			return tr{q: rPri, ev: "+Pri"}
		}
		return fail("priority")
	case rPri:
		if n, ok := privalNext(m.n, c); ok {
			if m.n == 0 {
				return tr{q: rPri, n: n, ev: "pri"}
			}
			return tr{q: rPri, n: n, ev: "pri+"}
		}
		if c == '>' && m.n > 0 {
			return tr{q: rTs0, ev: "@PriEnd priset +Ts"}
		}
		if m.n > 0 {
			return tr{q: rFail, ev: "@Err @PriEnd priset", err: "priority"}
		}
		return fail("priority")
	case rTs0:
		if n, sub, ok := stampNext(0, 0, c); ok {
			return tr{q: rStamp, n: n, sub: sub}
		}
		if m.c.rfc3339 && isDigit(c) {
			return tr{q: r3339, n: 1}
		}
		return fail("timestamp")
	case rStamp:
		if m.n == 15 {
			if c == ' ' {
				return tr{q: rHost, ev: "@TsEnd stamp +Host"}
			}
			return fail("timestamp end")
		}
		if n, sub, ok := stampNext(m.n, m.sub, c); ok {
			return tr{q: rStamp, n: n, sub: sub}
		}
		return fail("timestamp")
	case r3339:
		if m.n == tsDone {
			if c == ' ' {
				return tr{q: rHost, ev: "@TsEnd full +Host"}
			}
			return fail("timestamp end")
		}
		if c >= 0 && !(m.n == 19 && c == '.') {
			if n, sub, ok := tsNext(m.n, m.sub, c, 0); ok {
				return tr{q: r3339, n: n, sub: sub}
			}
		}
		return fail("timestamp")
	case rHost:
		if isGraph(c) && m.n < 255 {
			return tr{q: rHost, n: m.n + 1}
		}
		if c == ' ' && m.n > 0 {
			return tr{q: rMsg, ev: "@HostEnd host +Msg"}
		}
		return fail("hostname")
	case rMsg:
		vis := isVisible(c)
		to := func(ph int, ev string) tr { return tr{q: rMsg, sub: ph, ev: ev} }
		switch m.sub {
		case phTag:
			switch {
			case c < 0 && m.n > 0:
				return tr{q: rDone}
			case c == ':' && m.n > 0:
				return to(phColon, "@TagEnd tag")
			case c == '[' && m.n > 0:
				return to(phPid, "@TagEnd tag +Pid")
			case isGraph(c) && c != ':' && c != '[' && m.n < 32:
				return tr{q: rMsg, n: m.n + 1}
			case vis:
				return to(phPlain, "")
			}
		case phPlain, phRest:
			switch {
			case c < 0:
				return tr{q: rDone}
			case vis:
				return to(m.sub, "")
			}
		case phPid, phPidX:
			x := m.sub - phPid
			switch {
			case c == ']' && m.n == 0:
				return to(phClose+x, "@PidEnd")
			case c == ']':
				return to(phClose+x, "@PidEnd pid")
			case c < 0 && x == 0:
				return tr{q: rDone}
			case c < 0:
			case vis:
				return tr{q: rMsg, n: 1, sub: m.sub}
			default:
				return tr{q: rMsg, n: 1, sub: phPidX}
			}
		case phClose, phCloseX, phColon, phColonX:
			x := m.sub & 1
			want := int(':')
			if m.sub >= phColon {
				want = ' '
			}
			switch {
			case c == want && want == ':':
				return to(m.sub+2, "")
			case c == want:
				return to(m.sub+2, "+Rest")
			case c < 0 && x == 0:
				return tr{q: rDone}
			case vis && x == 0:
				return to(phPlain, "")
			}
		case phSp, phSpX:
			switch {
			case vis:
				return to(phRest, "rest")
			case c < 0 && m.sub == phSp:
				return tr{q: rDone}
			}
		}
		return fail("message")
	}
	return tr{q: m.q}
}

func (m *mon3164) settled() bool { return m.q == rFail || m.q == rDone }

func (m *mon3164) Label(c byte) int { return m.c.tab.id(m.next(int(c))) }

func (m *mon3164) tr(label int) tr {
	if label == endLabel {
		return m.next(-1)
	}
	return m.c.tab.all[label]
}

func (m *mon3164) Asks(ctx *MonCtx, label int) []*TermV {
	t := m.tr(label)
	s := ctx.s
	seg := func() *Str { return sliceOf(m.c.s, s.posOf(m.c.s, "Ts"), s.H(m.c.s)) }
	switch {
	case t.has("stamp"):
		return []*TermV{timeOK(timeStamp, seg())}
	case t.has("full"):
		return []*TermV{timeOK(rfc3339micro, seg())}
	}
	return nil
}

// Before renames the value of the digits read so far when another digit follows.
func (m *mon3164) Before(ctx *MonCtx, label int) {
	if m.tr(label).has("pri+") {
		renamePrefix(ctx.s, m.c.pri, m.c.prip)
	}
}

// renamePrefix makes the value named from a proper prefix.
func renamePrefix(s *State, from, to *Sym) {
	s.substAll(&subst{lin: func(l *Lin) *Lin {
		r := l
		for _, x := range l.t {
			if x.y == from || x.y == to {
				r = r.add(symLin(x.y), -x.k)
				if x.y == from {
					r = r.add(symLin(to), x.k)
				} else {
					r = r.add(symLin(globalTab.named("older"+to.name, 0, 1<<40)), x.k)
				}
			}
		}
		return r
	}})
}

func (m *mon3164) Marks(label int, ans []bool) []Mark {
	t := m.tr(label)
	if (t.has("stamp") || t.has("full")) && !ans[0] {
		return []Mark{{"Err", 0}, {"TsEnd", 0}}
	}
	return t.marks()
}

func (m *mon3164) Step(ctx *MonCtx, label int, ans []bool) Mon {
	t := m.tr(label)
	n := *m
	n.q, n.n, n.sub = t.q, t.n, t.sub
	if t.q == rMsg {
		n.inMsg = true
	}
	if t.err != "" {
		n.err = t.err
	}
	if t.ev == "" {
		return &n
	}
	for _, ev := range strings.Split(t.ev, " ") {
		switch ev {
		case "pri", "pri+":
			n.pri = symLin(m.c.pri)
		case "priset":
			n.priSet = true
		case "stamp", "full":
			if !ans[0] {
				n.q, n.n, n.sub = rFail, 0, 0
				n.err = "date"
				return &n
			}
			n.ts = 1
			if ev == "full" {
				n.ts = 2
			}
		case "host":
			n.host = true
		case "tag":
			n.tag = true
		case "pid":
			n.pid = true
		case "rest":
			n.rest = true
		}
	}
	return &n
}

func (m *mon3164) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "R%d.%d.%d.%v.%d.%v.%v.%v.%v.%v.%s;", m.q, m.n, m.sub, m.priSet, m.ts, m.host, m.tag, m.pid, m.rest, m.inMsg, m.err)
	writeVal(&b, m.pri)
	return b.String()
}

func (m *mon3164) Exact() []string {
	if m.q == rPri {
		return []string{"Pri"}
	}
	return nil
}
func (m *mon3164) Initial() []string { return nil }

func (m *mon3164) ByteSetAt(name string, off int) *ByteSet {
	if name == "Host" && off == 0 && (m.q > rHost || m.q == rHost && m.n > 0) {
		var r ByteSet
		for c := 33; c < 127; c++ {
			r.add(c)
		}
		return &r
	}
	return nil
}

func (m *mon3164) Range(a, b string) (int64, int64, bool) {
	switch {
	case a == "HostEnd" && b == "Host":
		if m.host {
			return 1, 255, true
		}
	case a == "TagEnd" && b == "Msg":
		if m.tag {
			return 1, 32, true
		}
	case a == "PidEnd" && b == "Pid":
		if m.pid {
			return 1, maxInt, true
		}
	case a == "Rest" && b == "Msg":
		if m.rest {
			return 3, maxInt, true
		}
	case a == "TsEnd" && b == "Ts":
		if m.ts > 0 {
			return 15, 32, true
		}
	case a == "PriEnd" && b == "Pri":
		return 1, 3, true
	case a == "H" && b == "Rest":
		if m.rest && m.q == rMsg || m.rest && m.q == rDone {
			return 1, maxInt, true
		}
	case b == "Start" && (a == "Msg" || a == "Rest"):
		return 10, maxInt, true
	}
	return 0, 0, false
}

func (m *mon3164) RangeMarks() []string { return nil }

func (m *mon3164) Named() []NamedQ {
	var r []NamedQ
	if m.q == rPri && m.n > 0 {
		r = append(r, NamedQ{m.c.pri, "Pri", "H"})
	}
	if m.q > rPri && m.pri != nil {
		r = append(r, NamedQ{m.c.pri, "Pri", "PriEnd"})
	}
	return r
}

func (m *mon3164) Subst(z *subst) Mon {
	if m.pri == nil {
		return m
	}
	v := z.do(m.pri)
	if v == m.pri {
		return m
	}
	n := *m
	n.pri = v
	return &n
}

func (m *mon3164) Regs() []string             { return nil }
func (m *mon3164) Reg(r string) Val           { return nil }
func (m *mon3164) SetReg(r string, v Val) Mon { return m }
