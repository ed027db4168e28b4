package main

// Models of library functions.

import (
	"go/token"
	"go/types"
	"strings"
)

// shimSource holds Go implementations of library functions that are assembly or too clever.
const shimSource = `package zzverifshim

func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func ContainsByteIn(s, chars string) bool { return false }

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func IndexAny(s, chars string) int {
	if ascii(chars) {
		for i := 0; i < len(s); i++ {
			if IndexByteString(chars, s[i]) >= 0 {
				return i
			}
		}
		return -1
	}
	for i, r := range s {
		for _, c := range chars {
			if r == c {
				return i
			}
		}
	}
	return -1
}

func IndexAnyBytes(s []byte, chars string) int {
	for i := 0; i < len(s); i++ {
		if IndexByteString(chars, s[i]) >= 0 {
			return i
		}
	}
	return -1
}

func suffix(n, old string) (string, bool) {
	if d := len(n) - len(old); d >= 0 && n[d:] == old {
		return n[:d], true
	}
	return n, false
}

func IndexRune(s string, r rune) int {
	if r >= 0 && r < 0x80 {
		return IndexByteString(s, byte(r))
	}
	for i, c := range s {
		if c == r {
			return i
		}
	}
	return -1
}

type Replacer struct{ oldnew []string }

func NewReplacer(oldnew ...string) *Replacer {
	if len(oldnew)%2 == 1 {
		panic("strings.NewReplacer: odd argument count")
	}
	return &Replacer{append([]string(nil), oldnew...)}
}

func Replace(r *Replacer, s string) string {
	res := ""
	for i := 0; i < len(s); {
		found := false
		for k := 0; k < len(r.oldnew); k += 2 {
			old := r.oldnew[k]
			if len(old) == 1 && s[i] == old[0] || len(old) != 1 && len(s)-i >= len(old) && s[i:i+len(old)] == old {
				if n, ok := suffix(r.oldnew[k+1], old); ok {
					res += n + s[i:i+len(old)]
				} else {
					res += n
				}
				i += len(old)
				found = true
				break
			}
		}
		if !found {
			res += s[i : i+1]
			i++
		}
	}
	return res
}

func SortSlice(x interface{}, less func(i, j int) bool) {
	l := x.([]string)
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

type Source struct{}

func (*Source) Read(p []byte) (int, error) { return 0, nil }

func Sort(d SortInterface) {
	for i := 1; i < d.Len(); i++ {
		for j := i; j > 0 && d.Less(j, j-1); j-- {
			d.Swap(j, j-1)
		}
	}
}

type SortInterface interface {
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
}

func Clone(s string) string { return s }

func ContainsAny(s, chars string) bool { return IndexAny(s, chars) >= 0 }
func ContainsRune(s string, r rune) bool { return IndexRune(s, r) >= 0 }
`

var shimTable = map[string]string{
	"internal/stringslite.Clone":           "Clone",
	"strings.Clone":                        "Clone",
	"internal/bytealg.IndexByte":           "IndexByte",
	"internal/bytealg.IndexByteString":     "IndexByteString",
	"internal/bytealg.LastIndexByte":       "LastIndexByte",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString",
	"bytes.IndexByte":                      "IndexByte",
	"strings.IndexByte":                    "IndexByteString",
	"bytes.LastIndexByte":                  "LastIndexByte",
	"strings.LastIndexByte":                "LastIndexByteString",
	"strings.IndexAny":                     "IndexAny",
	"bytes.IndexAny":                       "IndexAnyBytes",
	"strings.IndexRune":                    "IndexRune",
	"strings.ContainsAny":                  "ContainsAny",
	"strings.ContainsRune":                 "ContainsRune",
	"strings.NewReplacer":                  "NewReplacer",
	"(*strings.Replacer).Replace":          "Replace",
	"sort.Slice":                           "SortSlice",
	"sort.SliceStable":                     "SortSlice",
	"sort.Sort":                            "Sort",
	"sort.Stable":                          "Sort",
}

// containsOne decides the search functions on the whole of a text not read yet, where "nothing found" is a
// statement about every byte to come. "Found" adds nothing to what is known.
func (s *State) containsOne(name string, a []Val) (r, ok bool) {
	if len(a) != 2 {
		return
	}
	x, isStr := a[0].(*Str)
	chars := ""
	switch name {
	case "strings.Contains", "strings.ContainsAny":
		c, isStr := a[1].(*Str)
		if !isStr {
			return
		}
		if chars, ok = c.isLit(); !ok || name == "strings.Contains" && len(chars) != 1 {
			return false, false
		}
	case "strings.ContainsRune":
		c, isLin := a[1].(*Lin)
		if !isLin || !c.isConst() {
			return
		}
		chars = string(rune(c.c))
	default:
		return
	}
	if !isStr || chars == "" || nonASCII(chars) || len(x.p) != 1 || x.p[0].kind != 'S' || x.p[0].s < 0 {
		return false, false
	}
	p := x.p[0]
	if s.streams[p.s].started || !p.a.eq(con(0)) || !p.b.eq(symLin(globalTab.pos(p.s, "End"))) {
		return false, false
	}
	var set ByteSet
	for i := 0; i < len(chars); i++ {
		set.add(int(chars[i]))
	}
	if set.minus(s.streams[p.s].without).empty() {
		return false, true
	}
	at := &TermV{op: "hasany", args: []Val{x, lit(chars)}}
	if v, known := s.knownAtom(at); known {
		return v, true
	}
	fork(func(n *State) { n.setAtom(at, true) }, func(n *State) {
		n.setAtom(at, false)
		n.streams[p.s].without = n.streams[p.s].without.union(set)
	})
	return
}

func nonASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return true
		}
	}
	return false
}

// listArgs gives the elements of a variadic argument.
func (s *State) listArgs(v Val) []Val {
	switch x := v.(type) {
	case NilV:
		return nil
	case *SliceV:
		if l, ok := s.obj(x.obj).val.(*ListC); ok && l.tok == nil && x.off.isConst() && x.len.isConst() {
			return l.e[x.off.c : x.off.c+x.len.c]
		}
	}
	s.undecided("variadic argument %s", valKey(v))
	return nil
}

func (s *State) litArg(v Val, what string) string {
	if x, ok := v.(*Str); ok {
		if l, ok := x.isLit(); ok {
			return l
		}
	}
	s.undecided("%s is not constant: %s", what, valKey(v))
	return ""
}

// errText gives the message of an error value.
func errText(v Val) (*Str, bool) {
	switch x := v.(type) {
	case *IfaceV:
		return errText(x.val)
	case *TermV:
		if x.op == "err" {
			return x.args[0].(*Str), true
		}
	}
	return nil, false
}

// format renders a printf format.
func (s *State) format(format string, args []Val) *Str {
	r := &Str{}
	add := func(x *Str) {
		for _, p := range x.p {
			r.push(p)
		}
	}
	k := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			r.push(Part{kind: 'L', lit: string([]byte{c})})
			continue
		}
		i++
		if i >= len(format) {
			add(lit("%!(NOVERB)"))
			break
		}
		flags := ""
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			flags += string(format[i])
			i++
		}
		if i >= len(format) {
			break
		}
		verb := format[i]
		if verb == '%' {
			add(lit("%"))
			continue
		}
		if k >= len(args) {
			add(lit("%!" + string([]byte{verb}) + "(MISSING)"))
			continue
		}
		a := args[k]
		k++
		if x, ok := a.(StaleV); ok {
			s.violate("history", "formats %s, a leftover of an earlier call", x.name)
		}
		if flags != "" {
			r.push(Part{kind: 'T', term: &TermV{op: "fmt%" + flags + string([]byte{verb}), args: []Val{a}}})
			continue
		}
		add(s.formatArg(verb, a, k))
	}
	if k < len(args) {
		add(lit("%!(EXTRA)"))
	}
	return r
}

func (s *State) formatArg(verb byte, a Val, k int) *Str {
	iv, ok := a.(*IfaceV)
	if !ok {
		if _, ok := a.(NilV); ok {
			return lit("%!" + string([]byte{verb}) + "(<nil>)")
		}
		s.undecided("formatting of %s", valKey(a))
	}
	if verb == 's' || verb == 'v' {
		if t, ok := errText(iv); ok {
			return t
		}
		for _, m := range []string{"Error", "String"} {
			sel := s.e.prog.MethodSets.MethodSet(iv.typ).Lookup(nil, m)
			if sel == nil {
				continue
			}
			sig := sel.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
				continue
			}
			fn := s.e.prog.MethodValue(sel)
			if fn == nil || !s.e.inlineOK(fn) {
				return &Str{p: []Part{{kind: 'T', term: &TermV{op: "String", args: []Val{iv.val}}}}}
			}
			v := s.subcall(k, fn, []Val{iv.val})
			if x, ok := v.(*Str); ok {
				return x
			}
			s.undecided("String method result %s", valKey(v))
		}
	}
	switch x := iv.val.(type) {
	case *Lin:
		if verb == 'd' || verb == 'v' {
			n := s.named(x)
			if c, _, ok := s.norm(n).single(); ok && c.kind == 'P' {
				n = s.canonLin(n)
			}
			r := &Str{}
			r.push(Part{kind: 'D', a: n})
			return r
		}
		if verb == 'c' {
			if lo, hi := s.interval(s.norm(x)); lo >= 0 && hi < 128 {
				r := &Str{}
				r.push(Part{kind: 'B', a: x})
				return r
			}
		}
	case *Str:
		if verb == 's' || verb == 'v' {
			return x
		}
	case *SliceV:
		if verb == 's' && isBytes(iv.typ) {
			return s.bytesOf(x)
		}
	case NilV:
		if verb == 's' && isBytes(iv.typ) {
			return emptyStr
		}
	case BoolV:
		if verb == 't' || verb == 'v' {
			if x {
				return lit("true")
			}
			return lit("false")
		}
	case StaleV:
		s.violate("history", "formats %s, a leftover of an earlier call", x.name)
	}
	return &Str{p: []Part{{kind: 'T', term: &TermV{op: "fmt%" + string([]byte{verb}), args: []Val{iv.val}}}}}
}

// layouts that parse the RFC 3339 texts of the grammar alike
var rfc3339Layouts = map[string]bool{"2006-01-02T15:04:05Z07:00": true, "2006-01-02T15:04:05.999999999Z07:00": true, "2006-01-02T15:04:05.999999Z07:00": true}

func layoutName(l string) string {
	if rfc3339Layouts[l] {
		return "rfc3339"
	}
	return l
}

func timeOK(layout string, v *Str) *TermV {
	return &TermV{op: "timeok", args: []Val{lit(layoutName(layout)), v}}
}
func timeVal(layout string, v *Str) *TermV {
	return &TermV{op: "time", args: []Val{lit(layoutName(layout)), v}}
}
func timeErr(layout string, v *Str) *Str {
	return &Str{p: []Part{{kind: 'T', term: &TermV{op: "timeerr", args: []Val{lit(layoutName(layout)), v}}}}}
}

func (s *State) strArg(v Val) *Str {
	switch x := v.(type) {
	case *Str:
		return x
	case StaleV:
		s.violate("history", "uses %s, a leftover of an earlier call", x.name)
	}
	s.undecided("string %s in %s", valKey(v), s.top().fn)
	return nil
}

func lockKey(s *State, v Val) string { p := s.ptr(v); return s.obj(p.obj).pre + p.path }

// lockOp locks or unlocks; "shared " marks read locks.
func (s *State) lockOp(v Val, d int, shared string) Val {
	k := lockKey(s, v)
	if d > 0 && shared != "" && s.locks[k] > 0 || d > 0 && shared == "" && s.locks["shared "+k] > 0 {
		s.violate("lock", "locks %s, which it holds already", k)
	}
	k = shared + k
	if d > 0 && shared == "" && s.locks[k] > 0 {
		s.violate("lock", "locks %s twice", k)
	}
	if d < 0 && s.locks[k] == 0 {
		s.violate("lock", "unlocks %s, which is not locked", k)
	}
	s.locks[k] += d
	if s.locks[k] == 0 {
		delete(s.locks, k)
	}
	return nil
}

func pure(op string) modelFunc {
	return func(s *State, args []Val) Val {
		for _, a := range args {
			if x, ok := a.(StaleV); ok {
				s.violate("history", "uses %s, a leftover of an earlier call", x.name)
			}
		}
		return &TermV{op: op, args: append([]Val(nil), args...)}
	}
}

func pureStr(op string) modelFunc {
	p := pure(op)
	return func(s *State, args []Val) Val {
		return &Str{p: []Part{{kind: 'T', term: p(s, args)}}}
	}
}

func stdModels() map[string]modelFunc {
	m := map[string]modelFunc{}
	m["fmt.Errorf"] = func(s *State, a []Val) Val {
		return mkErr(s.format(strings.ReplaceAll(s.litArg(a[0], "format"), "%w", "%s"), s.listArgs(a[1])))
	}
	m["fmt.Sprintf"] = func(s *State, a []Val) Val { return s.format(s.litArg(a[0], "format"), s.listArgs(a[1])) }
	m["errors.New"] = func(s *State, a []Val) Val { return mkErr(s.strArg(a[0])) }
	m["errtext"] = func(s *State, a []Val) Val { return a[0].(*TermV).args[0] }
	// time
	m["time.Parse"] = func(s *State, a []Val) Val {
		l, v := s.litArg(a[0], "layout"), s.strArg(a[1])
		if s.atom(timeOK(l, v)) {
			return &TupleV{[]Val{timeVal(l, v), NilV{}}}
		}
		return &TupleV{[]Val{&TermV{op: "time.zero"}, mkErr(timeErr(l, v))}}
	}
	m["time.ParseInLocation"] = func(s *State, a []Val) Val {
		l, v := s.litArg(a[0], "layout"), s.strArg(a[1])
		if s.isNil(a[2]) {
			s.violate("panic", "time.ParseInLocation with a nil location")
		}
		if s.atom(timeOK(l, v)) {
			if u, ok := a[2].(*TermV); ok && u.op == "time.UTC" && l == timeStamp {
				return &TupleV{[]Val{timeVal(l, v), NilV{}}} // the same for a layout without zone
			}
			return &TupleV{[]Val{&TermV{op: "timein", args: []Val{lit(layoutName(l)), v, a[2]}}, NilV{}}}
		}
		return &TupleV{[]Val{&TermV{op: "time.zero"}, mkErr(timeErr(l, v))}}
	}
	m["(time.Time).AddDate"] = func(s *State, a []Val) Val {
		for _, x := range a[1:] {
			s.intv(x)
		}
		if y, ok := a[1].(*Lin); ok && y.eq(con(0)) && a[2].(*Lin).eq(con(0)) && a[3].(*Lin).eq(con(0)) {
			return a[0]
		}
		return pure("AddDate")(s, a)
	}
	m["(time.Time).In"] = func(s *State, a []Val) Val {
		if s.isNil(a[1]) {
			s.violate("panic", "time.In with a nil location")
		}
		return pure("In")(s, a)
	}
	m["(time.Time).UTC"] = pure("UTC")
	m["(time.Time).Local"] = func(s *State, a []Val) Val {
		s.violate("effect", "uses the local time zone")
		return nil
	}
	m["(time.Time).Location"] = pure("Location")
	m["(time.Time).Format"] = func(s *State, a []Val) Val {
		return &Str{p: []Part{{kind: 'T', term: &TermV{op: "timefmt", args: []Val{lit(s.litArg(a[1], "layout")), a[0]}}}}}
	}
	m["time.Now"] = func(s *State, a []Val) Val {
		s.violate("effect", "reads the clock in %s", s.top().fn)
		return nil
	}
	// locks
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		m[t+".Lock"] = func(s *State, a []Val) Val { return s.lockOp(a[0], 1, "") }
		m[t+".Unlock"] = func(s *State, a []Val) Val { return s.lockOp(a[0], -1, "") }
	}
	m["(*sync.RWMutex).RLock"] = func(s *State, a []Val) Val { return s.lockOp(a[0], 1, "shared ") }
	m["(*sync.RWMutex).RUnlock"] = func(s *State, a []Val) Val { return s.lockOp(a[0], -1, "shared ") }
	// strings
	caseFn := func(op string) modelFunc {
		return func(s *State, a []Val) Val {
			x := s.strArg(a[0])
			if l, ok := x.isLit(); ok {
				if op == "upper" {
					return lit(strings.ToUpper(l))
				}
				return lit(strings.ToLower(l))
			}
			return &Str{p: []Part{{kind: 'T', term: &TermV{op: op, args: []Val{x}}}}}
		}
	}
	m["strings.ToUpper"] = caseFn("upper")
	m["strings.ToLower"] = caseFn("lower")
	m["strings.EqualFold"] = func(s *State, a []Val) Val {
		x, y := s.strArg(a[0]), s.strArg(a[1])
		lx, okx := x.isLit()
		ly, oky := y.isLit()
		switch {
		case okx && oky:
			return BoolV(strings.EqualFold(lx, ly))
		case oky:
			return BoolV(s.eqFold(x, ly, "any"))
		case okx:
			return BoolV(s.eqFold(y, lx, "any"))
		}
		s.undecided("case folding of two unknown texts")
		return nil
	}
	m["strings.Clone"] = func(s *State, a []Val) Val { return a[0] }
	m["bytes.Clone"] = func(s *State, a []Val) Val {
		if _, ok := a[0].(NilV); ok {
			return a[0]
		}
		x := s.bytesOf(a[0])
		n := s.strLen(x)
		return &SliceV{s.alloc(types.NewSlice(types.Typ[types.Uint8]), x), con(0), n, n}
	}
	m["bytes.Equal"] = func(s *State, a []Val) Val { return BoolV(s.eqStr(s.bytesOf(a[0]), s.bytesOf(a[1]))) }
	m["strconv.Itoa"] = func(s *State, a []Val) Val {
		r := &Str{}
		r.push(Part{kind: 'D', a: s.named(s.intv(a[0]))})
		return r
	}
	fi := func(s *State, a []Val) Val {
		if !s.intv(a[1]).eq(con(10)) {
			s.undecided("number base")
		}
		r := &Str{}
		r.push(Part{kind: 'D', a: s.named(s.intv(a[0]))})
		return r
	}
	m["strconv.FormatInt"] = fi
	m["strconv.FormatUint"] = fi
	m["strings.Join"] = func(s *State, a []Val) Val {
		l := s.listArgs(a[0])
		sep := s.strArg(a[1])
		r := emptyStr
		for i, x := range l {
			if i > 0 {
				r = concat(r, sep)
			}
			r = concat(r, s.strArg(x))
		}
		return r
	}
	sortStr := func(s *State, a []Val) Val {
		if _, ok := a[0].(NilV); ok {
			return nil
		}
		sv, ok := a[0].(*SliceV)
		if !ok {
			s.undecided("sort of %s", valKey(a[0]))
		}
		o := s.obj(sv.obj)
		l, ok := o.val.(*ListC)
		if !ok || l.tok != nil || !sv.off.isConst() || !sv.len.isConst() {
			s.undecided("sort of %s", valKey(o.val))
		}
		e := append([]Val(nil), l.e[sv.off.c:sv.off.c+sv.len.c]...)
		for i := 1; i < len(e); i++ {
			for j := i; j > 0 && s.strLess(s.strArg(e[j]), s.strArg(e[j-1])); j-- {
				e[j], e[j-1] = e[j-1], e[j]
			}
		}
		n := append([]Val(nil), l.e...)
		copy(n[sv.off.c:], e)
		s.checkAccess(o, PtrV{sv.obj, ""}, true)
		s.setVal(sv.obj, &ListC{e: n})
		return nil
	}
	m["sort.Strings"] = sortStr
	m["slices.Sort"] = func(s *State, a []Val) Val {
		if c := s.e.curCall; c != nil {
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && isString(sl.Elem()) {
				return sortStr(s, a)
			}
		}
		s.undecided("slices.Sort")
		return nil
	}
	builderModels(m)
	bufModels(m)
	return m
}

// strings.Builder and bytes.Buffer keep their content in the first field as a string value.
func builderModels(m map[string]modelFunc) {
	get := func(s *State, v Val) (PtrV, *Str) {
		p := s.ptr(v)
		p.path += "/0"
		x := s.load(p)
		switch c := x.(type) {
		case *Str:
			return p, c
		case NilV, PtrV:
			return p, emptyStr
		case *SliceV:
			return p, s.bytesOf(c)
		}
		s.undecided("builder content %s", valKey(x))
		return p, nil
	}
	for _, t := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		t := t
		wr := func(s *State, v Val, x *Str) *Lin {
			p, c := get(s, v)
			s.store(p, concat(c, x))
			return s.strLen(x)
		}
		m[t+".WriteString"] = func(s *State, a []Val) Val {
			return &TupleV{[]Val{wr(s, a[0], s.strArg(a[1])), NilV{}}}
		}
		m[t+".Write"] = func(s *State, a []Val) Val {
			return &TupleV{[]Val{wr(s, a[0], s.bytesOf(a[1])), NilV{}}}
		}
		m[t+".WriteByte"] = func(s *State, a []Val) Val {
			r := &Str{}
			r.push(Part{kind: 'B', a: s.intv(a[1])})
			wr(s, a[0], r)
			return NilV{}
		}
		m[t+".WriteRune"] = func(s *State, a []Val) Val {
			l := s.intv(a[1])
			r := &Str{}
			if l.isConst() {
				r = lit(string(rune(l.c)))
			} else if lo, hi := s.interval(s.norm(l)); lo >= 0 && hi < 128 {
				r.push(Part{kind: 'B', a: l})
			} else {
				s.undecided("WriteRune")
			}
			return &TupleV{[]Val{wr(s, a[0], r), NilV{}}}
		}
		m[t+".String"] = func(s *State, a []Val) Val { _, c := get(s, a[0]); return c }
		m[t+".Len"] = func(s *State, a []Val) Val { _, c := get(s, a[0]); return s.strLen(c) }
		m[t+".Grow"] = func(s *State, a []Val) Val {
			if !s.cmp(token.GEQ, s.intv(a[1]), con(0)) {
				s.violate("panic", "Grow with a negative count")
			}
			s.reserve(s.intv(a[1]))
			return nil
		}
		m[t+".Reset"] = func(s *State, a []Val) Val {
			p, _ := get(s, a[0])
			s.store(p, emptyStr)
			return nil
		}
	}
	// formatted output into a builder or buffer, or any writer with a WriteString the analysis knows
	wrf := func(x Val, text *Str, s *State) Val {
		if i, ok := x.(*IfaceV); ok {
			if w := m["("+i.typ.String()+").WriteString"]; w != nil {
				return w(s, []Val{i.val, text})
			}
		}
		s.undecided("formatted output to %s", valKey(x))
		return nil
	}
	m["fmt.Fprintf"] = func(s *State, a []Val) Val {
		return wrf(a[0], s.format(s.litArg(a[1], "format"), s.listArgs(a[2])), s)
	}
	m["io.WriteString"] = func(s *State, a []Val) Val { return wrf(a[0], s.strArg(a[1]), s) }
	m["(*bytes.Buffer).Bytes"] = func(s *State, a []Val) Val {
		_, c := get(s, a[0])
		n := s.strLen(c)
		return &SliceV{s.alloc(types.NewSlice(types.Typ[types.Uint8]), c), con(0), n, n}
	}
	m["bytes.NewBuffer"] = nil
	delete(m, "bytes.NewBuffer")
}
