package main

// Support for reference automata: transitions are computed per byte and interned.

import (
	"strconv"
	"strings"
)

// tr is a transition of a reference automaton.
//
// ev lists events: "+X" marks the position after the consumed byte, "@X" marks the position of the
// consumed byte (or the end); other words are actions of the automaton. err is the error reported at this byte.
type tr struct {
	q, n, sub int
	ev        string
	err       string
}

type trTable struct {
	ids map[tr]int
	all []tr
}

func newTrTable() *trTable { return &trTable{ids: map[tr]int{}} }

func (t *trTable) id(x tr) int {
	if i, ok := t.ids[x]; ok {
		return i
	}
	i := len(t.all)
	t.ids[x] = i
	t.all = append(t.all, x)
	return i
}

func (x tr) has(ev string) bool {
	for _, e := range strings.Split(x.ev, " ") {
		if e == ev {
			return true
		}
	}
	return false
}

func (x tr) marks() []Mark {
	if x.ev == "" {
		return nil
	}
	var r []Mark
	for _, e := range strings.Split(x.ev, " ") {
		switch e[0] {
		case '+':
			r = append(r, Mark{e[1:], 1})
		case '@':
			r = append(r, Mark{e[1:], 0})
		}
	}
	return r
}

// stripEv is x without its events, used when nothing distinguishes them.
func stripEv(x tr) tr { return tr{q: x.q, n: x.n, sub: x.sub} }

func itoa(i int) string { return strconv.Itoa(i) }

func isDigit(c int) bool { return c >= '0' && c <= '9' }
func isGraph(c int) bool { return c >= 33 && c <= 126 }
func isName(c int) bool {
	return isGraph(c) && c != '=' && c != ' ' && c != ']' && c != '"'
}

// utf8 lead and continuation automaton: state 0 is a boundary, -1 is an error.
const (
	u0  = 0
	uT1 = 1 // one tail
	uT2 = 2
	uT3 = 3
	uE0 = 4
	uED = 5
	uF0 = 6
	uF4 = 7
)

func utf8Next(st, c int) int {
	tail := c >= 0x80 && c <= 0xBF
	switch st {
	case u0:
		switch {
		case c < 0:
			return -1
		case c < 0x80:
			return u0
		case c >= 0xC2 && c <= 0xDF:
			return uT1
		case c == 0xE0:
			return uE0
		case c == 0xED:
			return uED
		case c >= 0xE1 && c <= 0xEF:
			return uT2
		case c == 0xF0:
			return uF0
		case c >= 0xF1 && c <= 0xF3:
			return uT3
		case c == 0xF4:
			return uF4
		}
	case uT1:
		if tail {
			return u0
		}
	case uT2:
		if tail {
			return uT1
		}
	case uT3:
		if tail {
			return uT2
		}
	case uE0:
		if c >= 0xA0 && c <= 0xBF {
			return uT1
		}
	case uED:
		if c >= 0x80 && c <= 0x9F {
			return uT1
		}
	case uF0:
		if c >= 0x90 && c <= 0xBF {
			return uT2
		}
	case uF4:
		if c >= 0x80 && c <= 0x8F {
			return uT2
		}
	}
	return -1
}

// tsNext is the automaton of an RFC 3339 time stamp with up to six fraction digits.
// n is the state, sub the class of a leading digit; done (40) means complete.
const tsDone = 40

func tsNext(n, sub, c int, maxFrac int) (nn, nsub int, ok bool) {
	dig := isDigit(c)
	lit := "dddd-mm-ddThh:mm:ss"
	if n < 19 {
		switch n {
		case 4, 7, 10, 13, 16:
			return n + 1, 0, c == int(lit[n])
		case 5: // month
			if c == '0' || c == '1' {
				return n + 1, c - '0', true
			}
			return 0, 0, false
		case 6:
			if sub == 0 {
				return n + 1, 0, dig && c != '0'
			}
			return n + 1, 0, c >= '0' && c <= '2'
		case 8: // day
			if c >= '0' && c <= '3' {
				s := 1
				if c == '0' {
					s = 0
				} else if c == '3' {
					s = 2
				}
				return n + 1, s, true
			}
			return 0, 0, false
		case 9:
			switch sub {
			case 0:
				return n + 1, 0, dig && c != '0'
			case 1:
				return n + 1, 0, dig
			}
			return n + 1, 0, c == '0' || c == '1'
		case 11: // hour
			if c == '0' || c == '1' {
				return n + 1, 0, true
			}
			return n + 1, 1, c == '2'
		case 12:
			if sub == 0 {
				return n + 1, 0, dig
			}
			return n + 1, 0, c >= '0' && c <= '3'
		case 14, 17:
			return n + 1, 0, c >= '0' && c <= '5'
		}
		return n + 1, 0, dig
	}
	off := func() (int, int, bool) {
		switch c {
		case 'Z':
			return tsDone, 0, true
		case '+', '-':
			return 30, 0, true
		}
		return 0, 0, false
	}
	switch {
	case n == 19:
		if c == '.' {
			return 20, 0, true
		}
		return off()
	case n == 20:
		return 21, 0, dig
	case n > 20 && n < 30:
		if dig && n-20 < maxFrac {
			return n + 1, 0, true
		}
		return off()
	case n == 30:
		if c == '0' || c == '1' {
			return 31, 0, true
		}
		return 31, 1, c == '2'
	case n == 31:
		if sub == 0 {
			return 32, 0, dig
		}
		return 32, 0, c >= '0' && c <= '3'
	case n == 32:
		return 33, 0, c == ':'
	case n == 33:
		return 34, 0, c >= '0' && c <= '5'
	case n == 34:
		return tsDone, 0, dig
	}
	return 0, 0, false
}

// privalNext is the automaton of a priority value: 0 nothing read; 1 "1"; 2 "19"; 3 "1[0-8]"; 4 "[2-9]"; 5 complete. All of 1..5 may end.
func privalNext(n, c int) (int, bool) {
	if !isDigit(c) {
		return 0, false
	}
	switch n {
	case 0:
		switch {
		case c == '0':
			return 5, true
		case c == '1':
			return 1, true
		}
		return 4, true
	case 1:
		if c == '9' {
			return 2, true
		}
		return 3, true
	case 2:
		return 5, c == '0' || c == '1'
	case 3, 4:
		return 5, true
	}
	return 0, false
}
