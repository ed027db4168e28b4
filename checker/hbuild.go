package main

// Harnesses of the builder: every setter with every value, on a message all of whose other parts are unknown.

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

// msgType is the RFC 5424 message type.
func (w *World) msgType(pkg string) types.Type { return w.typeOf(pkg, "SyslogMessage") }

// newMessage makes a message; present says whether the optional parts are there (with unknown content).
// sd: 0 absent, 1 present with unknown elements.
func (s *State) newMessage(t types.Type, present bool, sd bool) PtrV {
	v := s.unknownStruct(t, "", present, sd)
	id := s.alloc(t, v)
	return PtrV{id, ""}
}

func (s *State) unknownStruct(t types.Type, path string, present, sd bool) Val {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		s.undecided("%s is not a struct", typeName(t))
	}
	r := &StructV{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		r.f = append(r.f, s.unknownField(f.Type(), f.Name(), present, sd))
	}
	return r
}

func (s *State) unknownField(t types.Type, name string, present, sd bool) Val {
	if isTime(t) {
		return &TermV{op: "old", args: []Val{lit(name)}}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return s.unknownStruct(t, name, present, sd)
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Map); ok {
			if !sd {
				return NilV{}
			}
			m := s.alloc(u.Elem(), &MapC{tok: TokV{"OLD"}})
			return PtrV{s.alloc(u.Elem(), MapV{m}), ""}
		}
		if !present {
			return NilV{}
		}
		return PtrV{s.alloc(u.Elem(), s.unknownField(u.Elem(), name, present, sd)), ""}
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi, ok := typeRange(t)
			if ok {
				return symLin(globalTab.named("old"+name, lo, hi))
			}
		case u.Info()&types.IsString != 0:
			return &Str{p: []Part{{kind: 'T', term: &TermV{op: "old", args: []Val{lit(name)}}}}}
		}
	}
	s.undecided("field %s of type %s", name, typeName(t))
	return nil
}

// snapshot describes every leaf field of the message; references are replaced by what they refer to.
func (s *State) snapshot(p PtrV, t types.Type) map[string]string {
	r := map[string]string{}
	var walk func(v Val, t types.Type)
	walk = func(v Val, t types.Type) {
		st := t.Underlying().(*types.Struct)
		sv, ok := v.(*StructV)
		if !ok {
			s.undecided("message content %s", valKey(v))
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if _, ok := f.Type().Underlying().(*types.Struct); ok && !isTime(f.Type()) {
				walk(sv.f[i], f.Type())
				continue
			}
			r[f.Name()] = s.leaf(sv.f[i])
		}
	}
	walk(getPath(s.obj(p.obj).val, splitPath(p.path)), t)
	return r
}

func (s *State) leaf(v Val) string {
	if _, ok := v.(PtrV); ok {
		return "&" + s.canonDeep(s.peek(v))
	}
	return s.canonDeep(v)
}

// whole is the whole text of stream st.
func (s *State) whole(st int) *Str {
	t := s.streams[st]
	if !t.started {
		// nothing was read yet
		return sliceOf(st, con(0), symLin(globalTab.pos(st, "End")))
	}
	if t.status == stEnd {
		return sliceOf(st, con(0), s.H(st))
	}
	return sliceOf(st, con(0), symLin(globalTab.pos(st, "End")))
}

// newText adds an unknown string argument read by the automaton.
func (s *State) newText(name string, m Mon) (int, Val) {
	st := s.addStream(name, m)
	return st, sliceOf(st, con(0), symLin(globalTab.pos(st, "End")))
}

// checkUnchanged compares all fields but the given ones with the snapshot taken before.
func (s *State) checkUnchanged(cat string, before map[string]string, after map[string]string, except ...string) {
	skip := map[string]bool{}
	for _, x := range except {
		skip[x] = true
	}
	for _, k := range sortedKeys(before) {
		s.e.oblig["other part unchanged"]++
		was, now := before[k], after[k]
		for i, t := range s.streams {
			if t.status == stEnd { // other names of the end
				h, e := fmt.Sprintf("P%d:H]", i), fmt.Sprintf("P%d:End]", i)
				was = strings.ReplaceAll(was, h, e)
				now = strings.ReplaceAll(now, h, e)
			}
		}
		for _, f := range s.facts { // numbers found out in between
			if f.lin == nil || f.lo != f.hi {
				continue
			}
			if y, c, ok := f.lin.single(); ok && c == 0 && y.kind == 'N' {
				re := regexp.MustCompile(regexp.QuoteMeta(y.key) + `\b`)
				was = re.ReplaceAllString(was, fmt.Sprint(f.lo))
				now = re.ReplaceAllString(now, fmt.Sprint(f.lo))
			}
		}
		if !skip[k] && was != now {
			s.violate(cat, "%s changes from %s to %s", k, was, now)
		}
	}
}

// checkReceiver requires the setter to return the message it was called on.
func (s *State) checkReceiver(cat string, res Val, p PtrV) {
	iv, ok := res.(*IfaceV)
	if !ok || valKey(iv.val) != valKey(p) {
		s.violate(cat, "the setter does not return the message itself but %s", valKey(res))
	}
}

type setter struct {
	name, field, kind string
	max               int
}

var setters = []setter{
	{"SetTimestamp", "Timestamp", "ts", 0},
	{"SetHostname", "Hostname", "graph", 255},
	{"SetAppname", "Appname", "graph", 48},
	{"SetProcID", "ProcID", "graph", 128},
	{"SetMsgID", "MsgID", "graph", 32},
	{"SetMessage", "Message", "any", 0},
}

func hSetter(w *World, x setter, present bool) *Engine {
	e := newEngine(w, "builder")
	e.config = fmt.Sprintf("%s on a message with other parts present=%v", x.name, present)
	s := w.initial(e)
	e.access(nil)
	var p PtrV
	var before map[string]string
	t := w.msgType("/rfc5424")
	if t == nil {
		e.report(s, "undecided", "type rfc5424.SyslogMessage is missing")
		return e
	}
	pt := types.NewPointer(t)
	mon := newMonPart(0, x.kind, x.max)
	e.script = seq{
		func(s *State) bool {
			p = s.newMessage(t, present, present)
			before = s.snapshot(p, t)
			_, v := s.newText("value", mon)
			return s.callMethod(&IfaceV{pt, p}, x.name, v)
		},
		func(s *State) bool {
			s.flags["res"] = s.ret0
			s.ret0 = nil
			return true
		},
		func(s *State) bool {
			s.drain(0)
			m := s.streams[0].mon.(*monPart)
			s.checkReceiver("set", s.flags["res"], p)
			v := s.whole(0)
			ok := m.ok()
			var want Val = v
			switch x.kind {
			case "ts":
				if ok {
					ok = s.atom(timeOK(rfc3339micro, v))
				}
				want = timeVal(rfc3339micro, v)
			case "any":
				ok = ok && !s.eqStr(v, emptyStr)
			default:
				ok = ok && !s.eqStr(v, lit("-"))
			}
			verdict := "valid"
			if !ok {
				verdict = "ignored"
			}
			s.e.verdicts[verdict]++
			s.e.oblig["setter result"]++
			after := s.snapshot(p, t)
			if !ok {
				s.checkUnchanged("set", before, after)
				return true
			}
			if after[x.field] == before[x.field] {
				s.violate("set", "a valid value %s is ignored", s.show(v))
			}
			if w := "&" + s.canonDeep(want); after[x.field] != w {
				s.violate("set", "%s is %s, want %s", x.field, after[x.field], w)
			}
			s.checkUnchanged("set", before, after, x.field)
			return true
		},
	}.script
	e.mustVerdicts = []string{"valid", "ignored"}
	e.run(s)
	return e
}

// hSetNumber checks SetPriority and SetVersion.
func hSetNumber(w *World, name string, lo, hi, tmax int64, present bool) *Engine {
	e := newEngine(w, "builder")
	e.config = fmt.Sprintf("%s on a message with other parts present=%v", name, present)
	s := w.initial(e)
	e.access(nil)
	var p PtrV
	var before map[string]string
	t := w.msgType("/rfc5424")
	if t == nil {
		e.report(s, "undecided", "type rfc5424.SyslogMessage is missing")
		return e
	}
	val := symLin(globalTab.named(name, 0, tmax))
	e.script = seq{
		func(s *State) bool {
			p = s.newMessage(t, present, present)
			before = s.snapshot(p, t)
			return s.callMethod(&IfaceV{types.NewPointer(t), p}, name, val)
		},
		func(s *State) bool {
			s.checkReceiver("set", s.ret0, p)
			after := s.snapshot(p, t)
			in := s.cmpGE(val, lo) && s.cmpGE(con(hi), val)
			s.e.oblig["setter result"]++
			if !in {
				s.e.verdicts["ignored"]++
				s.checkUnchanged("set", before, after)
				return true
			}
			s.e.verdicts["valid"]++
			if name == "SetVersion" {
				s.checkUnchanged("set", before, after, "Version")
				if w := s.canonDeep(val); after["Version"] != w {
					s.violate("set", "Version is %s, want %s", after["Version"], w)
				}
				return true
			}
			s.checkUnchanged("set", before, after, "Priority", "Facility", "Severity")
			for _, x := range s.priFields(val) {
				if w := "&" + s.canonDeep(x.want); after[x.name] != w {
					s.violate("set", "%s is %s, want %s", x.name, after[x.name], w)
				}
			}
			return true
		},
	}.script
	e.mustVerdicts = []string{"valid", "ignored"}
	e.run(s)
	return e
}

// ---------------------------------------------------------------- structured data

// oldHooks gives the meaning of lookups in the unknown structured data of an existing message. Its ids and names
// are valid ones. id and name are the streams of the setter's arguments (-1: none).
func oldHooks(e *Engine, id, name int) {
	valid := func(s *State, k Val, st int) (*Str, bool) {
		x, ok := k.(*Str)
		if !ok {
			s.undecided("lookup of %s", valKey(k))
		}
		if l, ok := x.isLit(); ok && l == "" {
			return x, false
		}
		if st < 0 || !s.sameVal(x, s.whole(st)) {
			s.undecided("lookup of %s in the structured data", s.show(x))
		}
		s.drain(st)
		return s.whole(st), s.streams[st].mon.(*monPart).ok()
	}
	e.lookTok = func(s *State, tok, k Val) (bool, Val) {
		switch tok {
		case Val(TokV{"OLD"}):
			x, ok := valid(s, k, id)
			if !ok || !s.atom(haskey(TokV{"OLD"}, x)) {
				return false, nil
			}
			if v, ok := s.flags["element"]; ok {
				return true, v
			}
			m := s.alloc(types.NewMap(types.Typ[types.String], types.Typ[types.String]), &MapC{tok: TokV{"OLDPAR"}})
			s.flags["element"] = MapV{m}
			return true, MapV{m}
		case Val(TokV{"OLDPAR"}):
			x, ok := valid(s, k, name)
			if !ok || !s.atom(haskey(TokV{"OLDPAR"}, x)) {
				return false, nil
			}
			return true, oldValue
		}
		s.undecided("lookup in %s", valKey(tok))
		return false, nil
	}
	e.lacksTok = func(s *State, tok, k Val) bool { return false }
	e.lenTok = func(s *State, c *MapC) *Lin {
		for _, o := range c.ops {
			if o.del {
				s.undecided("size of a map after a deletion")
			}
		}
		return symLin(globalTab.term(&TermV{op: "maplen", args: []Val{c}}, 0, 1<<40))
	}
	for fn := range e.w.funcsOf("") {
		if isRemover(fn) {
			e.override[fn] = removeModel
		}
	}
}

var oldValue = &Str{p: []Part{{kind: 'T', term: &TermV{op: "old", args: []Val{lit("value")}}}}}

// mapAt gives the value a map content has at a key, which must be the only one set.
func (s *State) mapAt(what string, v Val, key *Str, tok string) (present bool, val Val, old bool) {
	mv, ok := v.(MapV)
	if !ok {
		s.violate("sd", "%s is %s", what, valKey(v))
	}
	c, ok := s.obj(mv.obj).val.(*MapC)
	if !ok {
		s.undecided("%s content", what)
	}
	if c.tok != nil && valKey(c.tok) != "$"+tok {
		s.violate("sd", "%s is built from %s", what, valKey(c.tok))
	}
	for _, o := range c.ops {
		if !s.sameVal(o.key, key) {
			s.violate("sd", "%s changes at %s, which was not set", what, s.show(o.key))
		}
		if o.del {
			s.violate("sd", "%s loses %s", what, s.show(o.key))
		}
		present, val = true, o.val
	}
	if !present && c.tok != nil {
		if s.atom(haskey(TokV{tok}, key)) {
			return true, nil, true
		}
	}
	return present, val, false
}

// hSetSD checks SetElementID (param false) and SetParameter.
func hSetSD(w *World, param, sd bool) *Engine {
	e := newEngine(w, "builder")
	name := "SetElementID"
	if param {
		name = "SetParameter"
	}
	e.config = fmt.Sprintf("%s, structured data present=%v", name, sd)
	s := w.initial(e)
	e.access(nil)
	nm := -1
	if param {
		nm = 1
	}
	oldHooks(e, 0, nm)
	e.shortStart = true
	var p PtrV
	var before map[string]string
	t := w.msgType("/rfc5424")
	if t == nil {
		e.report(s, "undecided", "type rfc5424.SyslogMessage is missing")
		return e
	}
	e.script = seq{
		func(s *State) bool {
			p = s.newMessage(t, true, sd)
			before = s.snapshot(p, t)
			_, id := s.newText("id", newMonPart(0, "name", 32))
			args := []Val{id}
			if param {
				_, n := s.newText("name", newMonPart(1, "name", 32))
				_, v := s.newText("value", newMonPart(2, "pv", 0))
				args = append(args, n, v)
			}
			return s.callMethod(&IfaceV{types.NewPointer(t), p}, name, args...)
		},
		func(s *State) bool {
			s.flags["res"] = s.ret0
			s.ret0 = nil
			return true
		},
		func(s *State) bool {
			s.drain(0)
			if param {
				s.drain(1)
				s.drain(2)
			}
			s.checkReceiver("sd", s.flags["res"], p)
			s.e.oblig["setter result"]++
			after := s.snapshot(p, t)
			s.checkUnchanged("sd", before, after, "StructuredData")
			if !s.streams[0].mon.(*monPart).ok() {
				s.e.verdicts["invalid id"]++
				s.checkUnchanged("sd", before, after)
				return true
			}
			id := s.whole(0)
			nameOK := param && s.streams[1].mon.(*monPart).ok()
			f := s.fieldOf(p, t, "StructuredData")
			if _, isnil := f.(NilV); isnil {
				if param && !nameOK && !sd {
					s.e.verdicts["invalid name"]++
					return true // an element may be added but need not
				}
				s.violate("sd", "the element %s is not added", s.show(id))
			}
			had := sd && s.atom(haskey(TokV{"OLD"}, id))
			present, elem, asOld := s.mapAt("the structured data", s.peek(f), id, "OLD")
			if !present {
				if param && !nameOK {
					s.e.verdicts["invalid name"]++
					return true
				}
				s.violate("sd", "the element %s is not added", s.show(id))
			}
			if asOld {
				elem = s.flags["element"]
				if elem == nil {
					// never looked at, so unchanged
					if param && nameOK {
						s.violate("sd", "the parameter is not set in an existing element")
					}
					s.e.verdicts["existing element"]++
					return true
				}
			}
			ec, ok := s.obj(elem.(MapV).obj).val.(*MapC)
			if !ok {
				s.undecided("element content")
			}
			if had != (ec.tok != nil) {
				s.violate("sd", "an existing element is replaced")
			}
			if !param || !nameOK {
				if len(ec.ops) > 0 {
					s.violate("sd", "the element's parameters change: %s", valKey(ec))
				}
				if !param {
					s.e.verdicts["element"]++
				} else {
					s.e.verdicts["invalid name"]++
				}
				return true
			}
			n := s.whole(1)
			hadPar := ec.tok != nil && s.atom(haskey(TokV{"OLDPAR"}, n))
			has, val, unchanged := s.mapAt("the element", elem, n, "OLDPAR")
			if !has {
				s.violate("sd", "the parameter %s is not added", s.show(n))
			}
			if unchanged {
				val = oldValue
			}
			vm := s.streams[2].mon.(*monPart)
			switch {
			case vm.ok():
				s.e.verdicts["parameter"]++
				var want Val = s.whole(2)
				if l := vm.esc.(*ListC); l.tok != nil || len(l.e) > 0 {
					want = unescaped(s.whole(2), l)
				}
				if !s.sameVal(val, want) {
					s.violate("sd", "the parameter value is %s, want %s", s.show(val), s.show(want))
				}
			case hadPar:
				s.e.verdicts["kept"]++
				if !s.sameVal(val, oldValue) {
					s.violate("sd", "an invalid value changes the existing one to %s", s.show(val))
				}
			default:
				s.e.verdicts["empty"]++
				if !s.sameVal(val, emptyStr) {
					s.violate("sd", "an invalid value gives a new parameter %s", s.show(val))
				}
			}
			return true
		},
	}.script
	e.mustVerdicts = []string{"invalid id"}
	if param {
		e.mustVerdicts = append(e.mustVerdicts, "invalid name", "parameter", "empty")
		if sd {
			e.mustVerdicts = append(e.mustVerdicts, "kept")
		}
	} else {
		e.mustVerdicts = append(e.mustVerdicts, "element")
	}
	e.run(s)
	return e
}

func init() {
	for _, x := range setters {
		x := x
		addUnit("build-"+strings.ToLower(x.name), func(w *World, r *UnitResult) {
			r.addEngine(hSetter(w, x, false))
			r.addEngine(hSetter(w, x, true))
			r.Config = x.name
		})
	}
	addUnit("build-setpriority", func(w *World, r *UnitResult) {
		r.addEngine(hSetNumber(w, "SetPriority", 0, 191, 255, false))
		r.addEngine(hSetNumber(w, "SetPriority", 0, 191, 255, true))
	})
	addUnit("build-setversion", func(w *World, r *UnitResult) {
		r.addEngine(hSetNumber(w, "SetVersion", 1, 999, 65535, false))
		r.addEngine(hSetNumber(w, "SetVersion", 1, 999, 65535, true))
	})
	for _, sd := range []bool{false, true} {
		sd := sd
		n := ""
		if sd {
			n = "-existing"
		}
		addUnit("build-setelementid"+n, engUnit(func(w *World) *Engine { return hSetSD(w, false, sd) }))
		addUnit("build-setparameter"+n, engUnit(func(w *World) *Engine { return hSetSD(w, true, sd) }))
	}
}

func (s *State) cmpGE(a *Lin, b interface{}) bool {
	switch x := b.(type) {
	case int64:
		return s.cmp(token.GEQ, a, con(x))
	case *Lin:
		return s.cmp(token.GEQ, a, x)
	}
	panic("cmpGE")
}
