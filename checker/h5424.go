package main

// Harness of the RFC 5424 parser: every input, with each combination of options, through the parser's public constructor
// and Parse, against the reference automaton.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type parserCfg struct {
	name string
	opts []string
}

func h5424(w *World, ctor string, be, compliant bool, order []string, known map[string]bool) *Engine {
	e := newEngine(w, "rfc5424")
	e.config = fmt.Sprintf("rfc5424.%s bestEffort=%v compliantMsg=%v", ctor, be, compliant)
	s := w.initial(e)
	parse := w.methodOf("/rfc5424", "parser", "Parse")
	var roots []*ssa.Function
	for _, f := range w.implementersOf("/rfc5424", "Parse") {
		roots = append(roots, f)
	}
	if parse != nil {
		roots = append(roots, parse)
	}
	mutable := w.storedFields(roots...)
	text := func(n string) string { return w.constText("/rfc5424", n) }
	mon := newMon5424(0, compliant, text, "")
	tokHooks5424(e)
	var names []string
	if be {
		names = append(names, "WithBestEffort")
	}
	if compliant {
		names = append(names, "WithCompliantMsg")
	}
	if order != nil {
		names = order
		e.config += " options " + strings.Join(order, ",")
	}
	steps := append(buildParser(w, "/rfc5424", ctor, names), bestEffortSteps(be)...)
	steps = append(steps,
		func(s *State) bool {
			p := s.ret0
			s.skipKnown(p, known)
			s.flags["parser"] = p
			s.ownAll(p, "the parser", true)
			s.forget(p, mutable)
			e.access(mutable)
			s.callerLocks(ctor)
			st := s.addStream("input", mon)
			in := s.newInput(st, types.NewSlice(types.Typ[types.Byte]))
			s.flags["in"] = in
			return s.callMethod(p, "Parse", in)
		},
	)
	steps = append(steps, resultSteps()...)
	steps = append(steps,
		func(s *State) bool {
			s.drain(0)
			s.check5424(s.streams[0].mon.(*mon5424), s.flags["res"], be)
			return true
		},
	)
	steps = append(steps, lastErrSteps(ctor)...)
	e.script = seq(steps).script
	e.mustVerdicts = []string{"valid", "time", "ErrPri", "ErrPrival", "ErrVersion", "ErrParse", "ErrTimestamp", "ErrHostname", "ErrAppname", "ErrProcID", "ErrMsgID",
		"ErrStructuredData", "ErrSdID", "ErrSdIDDuplicated", "ErrSdParam", "ErrEscape"}
	if compliant {
		e.mustVerdicts = append(e.mustVerdicts, "ErrMsgNotCompliant")
	}
	e.run(s)
	return e
}

// callerLocks takes the lock that the user of a bare machine, which has none of its own, is to hold.
func (s *State) callerLocks(ctor string) {
	if ctor != "NewParser" {
		s.locks["the caller's"] = 1
	}
}

// lastErrSteps look at the state after Parse: a parser has released its lock; a bare machine reports with Err what Parse returned.
func lastErrSteps(ctor string) seq {
	if ctor == "NewParser" {
		return seq{func(s *State) bool {
			if len(s.locks) > 0 {
				s.violate("lock", "Parse returns with the lock held")
			}
			return true
		}}
	}
	return seq{
		func(s *State) bool { return s.callMethod(s.flags["parser"], "Err") },
		func(s *State) bool {
			s.e.oblig["error of the last call"]++
			s.staleCheck("Err", s.ret0)
			t := s.flags["res"].(*TupleV)
			if got, want := s.canonDeep(s.ret0), s.canonDeep(t.v[1]); got != want {
				s.violate("lasterr", "Err reports %s after Parse returned %s", got, want)
			}
			return true
		},
	}
}

// bestEffortSteps compare HasBestEffort of the parser just made with the options given.
func bestEffortSteps(be bool) seq {
	return seq{
		func(s *State) bool {
			s.flags["parser"] = s.ret0
			return s.callMethod(s.ret0, "HasBestEffort")
		},
		func(s *State) bool {
			b, ok := s.ret0.(BoolV)
			if !ok {
				s.undecided("HasBestEffort gives %s", valKey(s.ret0))
			}
			if bool(b) != be {
				s.violate("besteffort", "HasBestEffort reports %v, configured %v", bool(b), be)
			}
			s.ret0 = s.flags["parser"]
			return true
		},
	}
}

// skipKnown ends the analysis when the parser p is in the same state as one analysed before: the order of the options made no
// difference then.
func (s *State) skipKnown(p Val, known map[string]bool) {
	if known == nil {
		return
	}
	s.e.oblig["option order"]++
	k := s.heapKey(p)
	if known[k] && len(s.facts) == 0 {
		s.e.mustVerdicts = nil
		s.e.nFinal++
		panic(&stopReq{})
	}
	known[k] = true
}

// heapKey describes everything reachable from v, with objects numbered in the order they are met.
func (s *State) heapKey(v Val) string {
	num := map[int]int{}
	var ids []int
	n := func(id int) int {
		k, ok := num[id]
		if !ok {
			k = len(ids)
			num[id] = k
			ids = append(ids, id)
		}
		return k
	}
	z := &subst{lin: func(l *Lin) *Lin { return l }}
	z.val = func(v Val) (Val, bool) {
		switch x := v.(type) {
		case PtrV:
			return PtrV{n(x.obj), x.path}, true
		case MapV:
			return MapV{n(x.obj)}, true
		case *SliceV:
			return &SliceV{n(x.obj), x.off, x.len, x.cap}, true
		}
		return nil, false
	}
	r := valKey(z.do(v))
	for i := 0; i < len(ids); i++ {
		r += "|" + valKey(z.do(s.obj(ids[i]).val))
	}
	return r
}

// implementersOf lists the methods of that name on the named types of a package.
func (w *World) implementersOf(pkg, method string) []*ssa.Function {
	p := w.pkgs[modPath+pkg]
	if p == nil {
		return nil
	}
	var r []*ssa.Function
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		if f := lookupMethod(w.prog, types.NewPointer(tn.Type()), method); f != nil {
			r = append(r, f)
		}
	}
	return r
}

// buildParser calls the named option constructors and then the constructor with their results.
func buildParser(w *World, pkg, ctor string, opts []string, args ...func(s *State, name string) []Val) seq {
	var q seq
	np := w.fn(pkg, ctor)
	for i, n := range opts {
		i, n := i, n
		q = append(q, func(s *State) bool {
			var a []Val
			if len(args) > 0 {
				a = args[0](s, n)
			}
			name, _ := optionName(n)
			return s.callFn(w.fn(pkg, name), a...)
		}, func(s *State) bool {
			s.flags["opt"+itoa(i)] = s.ret0
			s.ret0 = nil
			return true
		})
	}
	q = append(q, func(s *State) bool {
		l := &ListC{}
		for i := range opts {
			l.e = append(l.e, s.flags["opt"+itoa(i)])
			delete(s.flags, "opt"+itoa(i))
		}
		if np == nil {
			s.undecided("%s.%s is missing", pkg, ctor)
		}
		var arg Val = NilV{}
		if len(l.e) > 0 {
			arg = s.listSlice(l, np.Params[0].Type().Underlying().(*types.Slice).Elem())
		}
		return s.callFn(np, arg)
	})
	return q
}

// tokHooks5424 gives the meaning of lookups in the maps of completed elements and parameters.
func tokHooks5424(e *Engine) {
	e.lookTok = func(s *State, tok, k Val) (bool, Val) {
		t, ok := tok.(TokV)
		ks, ok2 := k.(*Str)
		if !ok || !ok2 {
			s.undecided("lookup of %s", valKey(k))
		}
		if l, ok := ks.isLit(); ok && l == "" {
			return false, nil // no element or parameter has an empty name
		}
		if !s.atom(haskey(t, ks)) {
			return false, nil
		}
		return true, UnkV{why: "an element of " + t.name, nonnil: t.name == "SD"}
	}
	e.lacksTok = func(s *State, tok, k Val) bool {
		t, ok := tok.(TokV)
		ks, ok2 := k.(*Str)
		if !ok || !ok2 {
			return false
		}
		if l, ok := ks.isLit(); ok && l == "" {
			return true
		}
		v, known := s.knownAtom(haskey(t, ks))
		return known && !v
	}
	e.lenTok = func(s *State, c *MapC) *Lin {
		n := symLin(globalTab.term(&TermV{op: "maplen", args: []Val{c}}, 1, 1<<40))
		for _, o := range c.ops {
			if o.del {
				s.undecided("size of a map after a deletion")
			}
		}
		return n
	}
	for fn := range e.w.funcsOf("") {
		if isRemover(fn) {
			e.override[fn] = removeModel
		}
	}
}

// funcsOf lists the functions of the repository (all packages).
func (w *World) funcsOf(string) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, p := range w.repo {
		for _, m := range w.pkgs[p.PkgPath].Members {
			if f, ok := m.(*ssa.Function); ok {
				r[f] = true
			}
		}
	}
	return r
}

// isRemover recognises a function that removes bytes at positions.
func isRemover(fn *ssa.Function) bool {
	sg := fn.Signature
	if sg.Recv() != nil || sg.Params().Len() != 3 || sg.Results().Len() != 1 {
		return false
	}
	p := sg.Params()
	if !isBytes(p.At(0).Type()) || !isInt(p.At(2).Type()) || !isBytes(sg.Results().At(0).Type()) {
		return false
	}
	sl, ok := p.At(1).Type().Underlying().(*types.Slice)
	return ok && isInt(sl.Elem())
}

// removeModel stands for the byte removing function, which is checked on its own (see hRemove).
func removeModel(s *State, args []Val) Val {
	data := s.bytesOf(args[0])
	var l *ListC
	switch x := args[1].(type) {
	case NilV:
		l = &ListC{}
	case *SliceV:
		c, ok := s.obj(x.obj).val.(*ListC)
		if !ok {
			s.undecided("positions %s", valKey(s.obj(x.obj).val))
		}
		l = c
		if c.tok == nil && x.len.isConst() && x.off.isConst() {
			l = &ListC{e: c.e[x.off.c : x.off.c+x.len.c]}
		}
	case StaleV:
		s.violate("history", "removes bytes at positions in %s, a leftover of an earlier call", x.name)
	default:
		s.undecided("positions %s", valKey(args[1]))
	}
	off := s.intv(args[2])
	var out *Str
	if l.tok == nil && len(l.e) == 0 {
		out = data
	} else {
		if len(data.p) != 1 || data.p[0].kind != 'S' {
			s.undecided("bytes removed from %s", valKey(data))
		}
		if !s.sameVal(data.p[0].a, off) {
			s.violate("sd", "bytes are removed relative to %s from a text that starts at %s", s.show(off), s.show(data.p[0].a))
		}
		out = unescaped(data, l)
	}
	n := s.strLen(out)
	return &SliceV{s.alloc(types.NewSlice(types.Typ[types.Byte]), out), con(0), n, n}
}

// check5424 compares the result of Parse with the verdict of the reference automaton.
func (s *State) check5424(m *mon5424, res Val, be bool) {
	t, ok := res.(*TupleV)
	if !ok || len(t.v) != 2 {
		s.undecided("Parse does not return two values")
	}
	msg, err := t.v[0], t.v[1]
	s.checkIsolated("the returned message", msg)
	s.checkIsolated("the returned error", err)
	_, nomsg := msg.(NilV)
	verdict := m.err
	if verdict == "" {
		verdict = "valid"
	}
	s.e.verdicts[verdict]++
	s.e.oblig["verdict"]++
	s.checkErr5424(m, err, nomsg)
	want := m.err == "" || be && m.pri != nil && m.verSet
	if !be && m.err != "" && !nomsg {
		s.violate("strictmsg", "strict mode returns a message along with the error")
	}
	if m.err == "" && nomsg {
		s.violate("silent", "neither a message nor an error is returned")
	}
	s.checkMsg5424(m, msg, want)
}

func (s *State) staleCheck(what string, v Val) {
	z := &subst{}
	z.val = func(v Val) (Val, bool) {
		if x, ok := v.(StaleV); ok {
			s.violate("history", "%s depends on %s, a leftover of an earlier call", what, x.name)
		}
		return nil, false
	}
	z.lin = func(l *Lin) *Lin { return l }
	z.do(v)
}

func (m *mon5424) errWant(s *State) *Str {
	st := m.c.s
	col := concat(lit(" [col "), &Str{p: []Part{{kind: 'D', a: s.posOf(st, "Err")}}}, lit("]"))
	if m.err == "time" {
		return concat(timeErr(rfc3339micro, sliceOf(st, s.posOf(st, "Ts"), s.posOf(st, "TsEnd"))), col)
	}
	return concat(lit(m.c.text(m.err)), col)
}

func decCanon(x *Str) *Str {
	r := &Str{}
	for _, p := range x.p {
		r.push(p)
	}
	return r
}

func (s *State) checkErr5424(m *mon5424, err Val, nomsg bool) {
	s.staleCheck("the error", err)
	_, isnil := err.(NilV)
	acc := "accept"
	if m.msg == 2 || m.c.compliant && m.q == qDone && m.msg != 0 {
		acc = "msgaccept"
	}
	switch {
	case m.err == "" && !isnil:
		tx, _ := s.errTextOf(err)
		s.violate(acc, "a valid message is rejected: %s", s.show(tx))
	case m.err != "" && isnil && nomsg:
		s.violate("silent", "neither a message nor an error is returned (%s)", m.err)
	case m.err != "" && isnil:
		s.violate(acc, "an invalid message (%s) is accepted without error", m.err)
	case m.err == "":
		return
	}
	tx, ok := s.errTextOf(err)
	if !ok {
		s.violate("err", "the error %s is not one with text and column", valKey(err))
	}
	s.e.oblig["error text"]++
	got := decCanon(s.canon(tx).(*Str))
	want := decCanon(s.canon(m.errWant(s)).(*Str))
	if got.key() != want.key() {
		c := "err"
		if m.msg == 2 {
			c = "msgerr"
		}
		s.violate(c, "the error is %s, want %s", got.key(), want.key())
	}
}

type fieldExp struct {
	name string
	want Val // nil: absent
	cat  string
}

// checkMsg5424 checks the reported message.
func (s *State) checkMsg5424(m *mon5424, msg Val, want bool) {
	s.staleCheck("the message", msg)
	partial := m.err != ""
	cat := func(c string) string {
		if partial {
			return "be"
		}
		return c
	}
	if _, isnil := msg.(NilV); isnil {
		if want {
			s.violate(cat("accept"), "no message is returned")
		}
		return
	}
	if !want {
		s.violate(cat("be"), "a message is returned with the error")
	}
	iv, ok := msg.(*IfaceV)
	if !ok {
		s.undecided("message %s", valKey(msg))
	}
	pt, ok := iv.typ.Underlying().(*types.Pointer)
	if !ok || typeName(pt.Elem()) != "rfc5424.SyslogMessage" {
		s.violate(cat("field"), "the message is a %s", typeName(iv.typ))
	}
	if _, isnil := iv.val.(NilV); isnil {
		s.violate(cat("accept"), "the message is a nil *SyslogMessage")
	}
	st := m.c.s
	seg := func(n string) Val { return sliceOf(st, s.posOf(st, n), s.posOf(st, n+"End")) }
	exp := s.priFields(m.pri)
	exp = append(exp, fieldExp{"Version", m.ver, "field"})
	var ts Val
	if m.ts == 2 {
		ts = timeVal(rfc3339micro, seg("Ts").(*Str))
	}
	exp = append(exp, fieldExp{"Timestamp", ts, "field"})
	for i, n := range []string{"Hostname", "Appname", "ProcID", "MsgID"} {
		var v Val
		if m.fk[i] {
			x := seg(m.c.fields[i].name).(*Str)
			if !s.eqStr(x, lit("-")) {
				v = x
			}
		}
		exp = append(exp, fieldExp{n, v, "field"})
	}
	var mv Val
	mc := "field"
	if m.c.compliant {
		mc = "msg"
	}
	switch m.msg {
	case 1:
		mv = sliceOf(st, s.posOf(st, "Msg"), symLin(globalTab.pos(st, "End")))
		if s.streams[st].status == stEnd {
			mv = sliceOf(st, s.posOf(st, "Msg"), s.H(st))
		}
	case 2:
		mv = sliceOf(st, s.posOf(st, "Msg"), s.posOf(st, "Err"))
		mc = "msg"
	case 0:
		if m.q == qDone && m.err == "" || m.q == qFail {
			mv = nil
		}
	}
	exp = append(exp, fieldExp{"Message", mv, mc})
	s.checkFields(iv.val, pt.Elem(), exp, partial)
	// structured data
	s.e.oblig["structured data"]++
	got := s.fieldOf(iv.val, pt.Elem(), "StructuredData")
	_, isnil := got.(NilV)
	switch {
	case !m.hasSD && !isnil:
		s.violate(cat("sd"), "structured data is reported where there is none")
	case m.hasSD && isnil:
		s.violate(cat("sd"), "the structured data is lost")
	case m.hasSD:
		wantV := asMap(m.sd)
		if m.inEl {
			n := &MapC{tok: wantV.tok, ops: append([]mapOp(nil), wantV.ops...)}
			n.ops = append(n.ops, mapOp{key: seg("Id"), val: m.cur})
			wantV = n
		}
		g := s.canonDeep(s.peek(got))
		wk := valKey(s.canon(wantV))
		if g == wk {
			return
		}
		if m.altPn {
			cur := s.mapWithout(asMap(m.cur), sliceOf(st, s.posOf(st, "Pn"), s.posOf(st, "PnEnd")))
			n := &MapC{tok: asMap(m.sd).tok, ops: append([]mapOp(nil), asMap(m.sd).ops...)}
			n.ops = append(n.ops, mapOp{key: seg("Id"), val: cur})
			if g == valKey(s.canon(n)) {
				return
			}
		}
		s.violate(cat("sd"), "the structured data is %s, want %s", g, wk)
	}
}

// canonDeep is the key of a value with maps replaced by their contents and positions made canonical.
func (s *State) canonDeep(v Val) string {
	z := &subst{lin: func(l *Lin) *Lin { return s.norm(l) }}
	depth := 0
	z.val = func(v Val) (Val, bool) {
		if m, ok := v.(MapV); ok && depth < 4 {
			depth++
			defer func() { depth-- }()
			return z.do(s.obj(m.obj).val), true
		}
		return nil, false
	}
	return valKey(z.do(v))
}

func (s *State) priFields(pri Val) []fieldExp {
	l := pri.(*Lin)
	return []fieldExp{
		{"Priority", l, "field"},
		{"Facility", s.divMod(l, 8, true), "field"},
		{"Severity", s.divMod(l, 8, false), "field"},
	}
}

// fieldOf reads a (promoted) field of the struct behind p.
func (s *State) fieldOf(p Val, t types.Type, name string) Val {
	path, ft := fieldPath(t, name)
	if ft == nil {
		s.undecided("%s has no field %s", typeName(t), name)
	}
	pv, ok := p.(PtrV)
	if !ok {
		s.undecided("message pointer %s", valKey(p))
	}
	return getPath(s.obj(pv.obj).val, append(splitPath(pv.path), path...))
}

// checkFields compares fields (pointers are followed, nil means absent).
func (s *State) checkFields(p Val, t types.Type, exp []fieldExp, partial bool) {
	for _, x := range exp {
		cat := x.cat
		s.e.oblig["field"]++
		if partial && cat != "msg" {
			cat = "be"
		}
		mis := cat
		if x.cat == "ts" {
			mis = "ts"
		}
		v := s.fieldOf(p, t, x.name)
		if _, isnil := v.(NilV); isnil {
			if x.want != nil {
				s.violate(cat, "%s is absent, want %s", x.name, s.show(x.want))
			}
			continue
		}
		if _, ok := v.(PtrV); ok {
			v = s.peek(v)
		}
		if x.want == nil {
			s.violate(cat, "%s is %s, want absent", x.name, s.show(v))
		}
		if !s.sameVal(v, x.want) {
			s.violate(mis, "%s is %s, want %s", x.name, s.show(v), s.show(x.want))
		}
	}
}
