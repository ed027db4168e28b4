package main

// Reference automata of single parts of a message: header parts, names, parameter values, time stamps.

import (
	"fmt"
	"strings"
)

type confPart struct {
	s    int
	kind string // graph, name, pv, ts, any
	max  int
	tab  *trTable
}

// monPart reads one part; q is 0 while reading, 1 when it failed, 2 at the end of a valid part.
type monPart struct {
	c         *confPart
	q, n, sub int
	esc       Val // backslashes of a parameter value
	out       Val // escaped text (kind escape)
}

func newMonPart(s int, kind string, max int) *monPart {
	return &monPart{c: &confPart{s: s, kind: kind, max: max, tab: newTrTable()}, esc: &ListC{}, out: emptyStr}
}

func (m *monPart) next(c int) tr {
	if l, ok := strings.CutPrefix(m.c.kind, "fold:"); ok { // one of several words, in any case, bare or quoted
		return m.fold(foldTab(l), c)
	}
	if m.q != 0 {
		return tr{q: m.q}
	}
	fail := tr{q: 1}
	done := tr{q: 2}
	count := func(ok bool, min int) tr {
		switch {
		case c < 0 && m.n >= min:
			return done
		case c >= 0 && ok && (m.c.max == 0 || m.n < m.c.max):
			n := m.n + 1
			if m.c.max == 0 {
				n = 1
			}
			return tr{n: n}
		}
		return fail
	}
	switch m.c.kind {
	case "graph":
		return count(isGraph(c), 1)
	case "name":
		return count(isName(c), 1)
	case "any":
		return count(true, 0)
	case "ts":
		switch {
		case c < 0 && m.n == tsDone:
			return done
		case c < 0 || m.n == tsDone:
			return fail
		}
		n, sub, ok := tsNext(m.n, m.sub, c, 6)
		if !ok {
			return fail
		}
		return tr{n: n, sub: sub}
	case "pv":
		if m.sub == 1 { // after a backslash
			if c == '"' || c == '\\' || c == ']' {
				return tr{}
			}
			return fail
		}
		if m.n == u0 {
			switch c {
			case -1:
				return done
			case '\\':
				return tr{sub: 1, ev: "esc"}
			case '"', ']':
				return fail
			}
		}
		if u := utf8Next(m.n, c); u >= 0 {
			return tr{n: u}
		}
		return fail
	case "escape":
		switch c {
		case -1:
			return tr{q: 2, n: m.n}
		case '"', '\\', ']':
			return tr{n: 1, ev: "quote"}
		}
		return tr{n: m.n}
	}
	panic("kind of part")
}

// foldWords is the tree of the accepted texts: the words, bare or in a pair of quotes, in upper case.
type foldWords struct {
	all  []string
	list []string // the prefixes
	idx  map[string]int
}

var foldTabs = map[string]*foldWords{}

func foldTab(l string) *foldWords {
	f := foldTabs[l]
	if f != nil {
		return f
	}
	f = &foldWords{idx: map[string]int{"": 0}, list: []string{""}}
	for _, w := range strings.Split(l, ",") {
		f.all = append(f.all, w, `"`+w+`"`, "'"+w+"'")
	}
	for _, w := range f.all {
		for i := 1; i <= len(w); i++ {
			if _, ok := f.idx[w[:i]]; !ok {
				f.idx[w[:i]] = len(f.list)
				f.list = append(f.list, w[:i])
			}
		}
	}
	foldTabs[l] = f
	return f
}

func (f *foldWords) next(p string, c int) (int, bool) {
	if c >= 'a' && c <= 'z' {
		c -= 32
	}
	if c < 0 || c >= 128 {
		return 0, false
	}
	i, ok := f.idx[p+string([]byte{byte(c)})]
	return i, ok
}

const foldCap = 9

// fold: n is the longest prefix read that is one of some word's; once failed sub counts the bytes after it.
func (m *monPart) fold(f *foldWords, c int) tr {
	if m.q == 2 {
		return tr{q: 2, n: m.n}
	}
	if m.q == 1 {
		sub := m.sub
		if c >= 0 && sub < foldCap {
			sub++
		}
		return tr{q: 1, n: m.n, sub: sub}
	}
	p := f.list[m.n]
	if c < 0 {
		for _, w := range f.all {
			if w == p {
				return tr{q: 2, n: m.n}
			}
		}
		return tr{q: 1, n: m.n}
	}
	if i, ok := f.next(p, c); ok {
		return tr{n: i}
	}
	return tr{q: 1, n: m.n, sub: 1}
}

// word is the number of the word read.
func (m *monPart) word() int {
	f := foldTab(strings.TrimPrefix(m.c.kind, "fold:"))
	for i, w := range f.all {
		if w == f.list[m.n] {
			return i / 3
		}
	}
	panic("word")
}

func (m *monPart) settled() bool { return m.q != 0 }
func (m *monPart) ok() bool      { return m.q == 2 }

func (m *monPart) Label(c byte) int { return m.c.tab.id(m.next(int(c))) }
func (m *monPart) tr(label int) tr {
	if label == endLabel {
		return m.next(-1)
	}
	return m.c.tab.all[label]
}
func (m *monPart) Asks(ctx *MonCtx, label int) []*TermV { return nil }
func (m *monPart) Marks(label int, ans []bool) []Mark {
	if m.tr(label).ev == "quote" {
		return []Mark{{"Seg", 0}}
	}
	return nil
}

// written is the escaped text up to and including the last backslash added.
func (m *monPart) written() *Str {
	if x, ok := m.out.(*Str); ok {
		return x
	}
	return &Str{p: []Part{{kind: 'T', term: m.out}}}
}

// escaped is the escaped form of the whole text (kind escape, at the end).
func (m *monPart) escaped(s *State) *Str {
	if m.n == 0 {
		return s.whole(m.c.s)
	}
	return concat(m.written(), sliceOf(m.c.s, s.posOf(m.c.s, "Seg"), s.H(m.c.s)))
}

func (m *monPart) Step(ctx *MonCtx, label int, ans []bool) Mon {
	t := m.tr(label)
	n := *m
	n.q, n.n, n.sub = t.q, t.n, t.sub
	s := ctx.s
	switch t.ev {
	case "esc":
		l := n.esc.(*ListC)
		n.esc = &ListC{tok: l.tok, e: append(append([]Val(nil), l.e...), s.H(m.c.s))}
	case "quote":
		seg := sliceOf(m.c.s, con(0), s.H(m.c.s))
		if m.n > 0 {
			seg = sliceOf(m.c.s, symLin(globalTab.pos(m.c.s, "Seg'")), s.H(m.c.s))
		} else if d, ok := ctx.t.dist["Start"]; ok && d == 0 {
			seg = emptyStr
		}
		n.out = concat(m.written(), seg, lit(`\`))
	}
	return &n
}

func (m *monPart) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "P%s.%d.%d.%d.%d;", m.c.kind, m.c.max, m.q, m.n, m.sub)
	writeVal(&b, m.esc)
	writeVal(&b, m.out)
	return b.String()
}
func (m *monPart) Exact() []string   { return nil }
func (m *monPart) Initial() []string { return nil }
func (m *monPart) ByteSetAt(name string, off int) *ByteSet {
	l, ok := strings.CutPrefix(m.c.kind, "fold:")
	if !ok {
		return nil
	}
	f := foldTab(l)
	p := f.list[m.n]
	at := off
	switch name {
	case "", "Start":
	case "H":
		if m.sub >= foldCap {
			return nil
		}
		at = len(p) + m.sub + off
	default:
		return nil
	}
	if at < 0 || at > len(p) || at == len(p) && m.sub == 0 {
		return nil
	}
	var r ByteSet
	if at == len(p) {
		for c := 0; c < 256; c++ {
			if _, ok := f.next(p, c); !ok {
				r.add(c)
			}
		}
		return &r
	}
	c := p[at]
	r.add(int(c))
	if c >= 'A' && c <= 'Z' {
		r.add(int(c) + 32)
	}
	return &r
}
func (m *monPart) Range(a, b string) (int64, int64, bool) {
	if a == "H" && b == "Start" && (m.c.kind == "graph" || m.c.kind == "name") && m.q == 0 {
		return int64(m.n), int64(m.n), true
	}
	return 0, 0, false
}
func (m *monPart) RangeMarks() []string { return nil }
func (m *monPart) Named() []NamedQ      { return nil }
func (m *monPart) Subst(z *subst) Mon {
	e, o := z.do(m.esc), z.do(m.out)
	if e == m.esc && o == m.out {
		return m
	}
	n := *m
	n.esc, n.out = e, o
	return &n
}
func (m *monPart) Regs() []string {
	switch m.c.kind {
	case "pv":
		return []string{"ESC"}
	case "escape":
		return []string{"OUT"}
	}
	return nil
}
func (m *monPart) Reg(r string) Val {
	if r == "OUT" {
		return m.out
	}
	return m.esc
}
func (m *monPart) SetReg(r string, v Val) Mon {
	n := *m
	if r == "OUT" {
		n.out = v
	} else {
		n.esc = v
	}
	return &n
}
