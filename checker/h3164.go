package main

// Harness of the RFC 3164 parser.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opts3164 is a choice of options, in the given order if there is one. Parsers in a known state need not be analysed again.
type opts3164 struct {
	ctor                            string
	be, rfc3339, year, zone, locale bool
	order                           []string
	known                           map[string]bool
}

func (o opts3164) String() string { return strings.Join(o.names(), ",") }

func (o opts3164) names() []string {
	if o.order != nil {
		return o.order
	}
	var l []string
	for _, x := range []struct {
		on bool
		n  string
	}{{o.be, "WithBestEffort"}, {o.rfc3339, "WithRFC3339"}, {o.year, "WithYear"}, {o.zone, "WithTimezone"}, {o.locale, "WithLocaleTimezone"}} {
		if x.on {
			l = append(l, x.n)
		}
	}
	return l
}

// optionList splits "Name/variant".
func optionName(n string) (name string, other bool) {
	if i := strings.IndexByte(n, '/'); i >= 0 {
		return n[:i], true
	}
	return n, false
}

func locVal(name string) Val {
	return &TermV{op: "location", args: []Val{lit(name)}, nonnil: true}
}

func h3164(w *World, o opts3164) *Engine {
	e := newEngine(w, "rfc3164")
	if o.ctor == "" {
		o.ctor = "NewParser"
	}
	e.config = "rfc3164." + o.ctor + "(" + o.String() + ")"
	s := w.initial(e)
	var roots []*ssa.Function
	roots = append(roots, w.implementersOf("/rfc3164", "Parse")...)
	mutable := w.storedFields(roots...)
	mon := newMon3164(0, o.rfc3339)
	yyyy := symLin(globalTab.named("YYYY", -100000, 100000))
	steps := buildParser(w, "/rfc3164", o.ctor, o.names(), func(s *State, name string) []Val {
		if strings.HasSuffix(name, "/nil") { // no zone
			return []Val{NilV{}}
		}
		name, other := optionName(name)
		if other { // to be replaced by a later option
			switch name {
			case "WithYear":
				return []Val{&IfaceV{w.typeOf("/rfc3164", "Year"), &StructV{[]Val{con(77)}}}}
			case "WithTimezone", "WithLocaleTimezone":
				return []Val{locVal("replaced")}
			}
			return nil
		}
		switch name {
		case "WithYear":
			t := w.typeOf("/rfc3164", "Year")
			if t == nil {
				s.undecided("type rfc3164.Year is missing")
			}
			return []Val{&IfaceV{t, &StructV{[]Val{yyyy}}}}
		case "WithTimezone":
			return []Val{locVal("zone")}
		case "WithLocaleTimezone":
			return []Val{locVal("locale")}
		}
		return nil
	})
	steps = append(steps, bestEffortSteps(o.be)...)
	steps = append(steps, func(s *State) bool {
		p := s.ret0
		s.skipKnown(p, o.known)
		s.flags["parser"] = p
		s.ownAll(p, "the parser", true)
		s.forget(p, mutable)
		e.access(mutable)
		s.callerLocks(o.ctor)
		st := s.addStream("input", mon)
		in := s.newInput(st, types.NewSlice(types.Typ[types.Byte]))
		s.flags["in"] = in
		return s.callMethod(p, "Parse", in)
	})
	steps = append(steps, resultSteps()...)
	steps = append(steps,
		func(s *State) bool {
			s.drain(0)
			s.check3164(s.streams[0].mon.(*mon3164), s.flags["res"], o, yyyy)
			return true
		},
	)
	steps = append(steps, lastErrSteps(o.ctor)...)
	e.script = seq(steps).script
	e.mustVerdicts = []string{"valid", "priority", "timestamp", "timestamp end", "date", "hostname", "message"}
	e.run(s)
	return e
}

func (w *World) typeOf(pkg, name string) types.Type {
	p := w.pkgs[modPath+pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (s *State) check3164(m *mon3164, res Val, o opts3164, yyyy *Lin) {
	t, ok := res.(*TupleV)
	if !ok || len(t.v) != 2 {
		s.undecided("Parse does not return two values")
	}
	msg, err := t.v[0], t.v[1]
	s.checkIsolated("the returned message", msg)
	s.checkIsolated("the returned error", err)
	_, nomsg := msg.(NilV)
	_, noerr := err.(NilV)
	verdict := m.err
	if verdict == "" {
		verdict = "valid"
	}
	s.e.verdicts[verdict]++
	s.e.oblig["verdict"]++
	s.staleCheck("the error", err)
	s.staleCheck("the message", msg)
	switch {
	case noerr && nomsg:
		s.violate("silent", "neither a message nor an error is returned (%s)", verdict)
	case m.err == "" && !noerr:
		tx, _ := s.errTextOf(err)
		s.violate("accept", "a valid message is rejected: %s", s.show(tx))
	case m.err != "" && noerr:
		s.violate("accept", "an invalid message (%s) is accepted without error", m.err)
	}
	st := m.c.s
	if !noerr {
		s.e.oblig["error column"]++
		tx, ok := s.errTextOf(err)
		if !ok {
			s.violate("err", "the error %s is not one with text and column", valKey(err))
		}
		col := concat(lit("[col "), &Str{p: []Part{{kind: 'D', a: s.posOf(st, "Err")}}}, lit("]"))
		if !hasSuffixStr(s.canon(tx).(*Str), s.canon(col).(*Str)) {
			s.violate("err", "the error is %s, which does not end in %s", s.show(tx), s.show(col))
		}
	}
	partial := m.err != ""
	want := !partial || o.be && m.priSet
	switch {
	case nomsg && want:
		s.violate("be", "no partial message is returned although the priority was read")
	case nomsg:
		return
	case !want:
		s.violate("be", "a message is returned with the error")
	}
	iv, ok := msg.(*IfaceV)
	if !ok {
		s.undecided("message %s", valKey(msg))
	}
	pt, ok := iv.typ.Underlying().(*types.Pointer)
	if !ok || typeName(pt.Elem()) != "rfc3164.SyslogMessage" {
		s.violate("field", "the message is a %s", typeName(iv.typ))
	}
	if _, isnil := iv.val.(NilV); isnil {
		s.violate("silent", "the message is a nil *SyslogMessage")
	}
	seg := func(a, b string) *Str { return sliceOf(st, s.posOf(st, a), s.posOf(st, b)) }
	// an absent value is nil; - stands for absent
	dash := func(x *Str) Val {
		if s.eqStr(x, lit("-")) {
			return nil
		}
		return x
	}
	exp := s.priFields(m.pri)
	var ts Val
	switch m.ts {
	case 1:
		ts = timeVal(timeStamp, seg("Ts", "TsEnd"))
		if o.locale {
			ts = &TermV{op: "timein", args: []Val{lit(timeStamp), seg("Ts", "TsEnd"), locVal("locale")}}
		}
		if o.year {
			ts = &TermV{op: "AddDate", args: []Val{ts, yyyy, con(0), con(0)}}
		}
		if o.zone {
			ts = &TermV{op: "In", args: []Val{ts, locVal("zone")}}
		}
	case 2:
		ts = timeVal(rfc3339micro, seg("Ts", "TsEnd"))
	}
	exp = append(exp, fieldExp{"Timestamp", ts, "ts"})
	var host, app, pid, text Val
	if m.host {
		host = dash(seg("Host", "HostEnd"))
	}
	if m.tag {
		app = dash(seg("Msg", "TagEnd"))
	}
	if m.pid {
		pid = dash(seg("Pid", "PidEnd"))
	}
	if m.err == "" {
		end := symLin(globalTab.pos(st, "End"))
		if s.streams[st].status == stEnd {
			end = s.H(st)
		}
		from := "Msg"
		if m.rest {
			from = "Rest"
		}
		text = sliceOf(st, s.posOf(st, from), end)
	}
	exp = append(exp, fieldExp{"Hostname", host, "field"}, fieldExp{"Appname", app, "field"}, fieldExp{"ProcID", pid, "field"},
		fieldExp{"Message", text, "field"}, fieldExp{"MsgID", nil, "field"})
	s.checkFields(iv.val, pt.Elem(), exp, partial)
}

// hasSuffixStr says whether x ends in the parts of y.
func hasSuffixStr(x, y *Str) bool {
	if len(y.p) == 0 {
		return true
	}
	if len(x.p) < len(y.p) {
		return false
	}
	k := len(x.p) - len(y.p)
	for i := range y.p {
		a, b := x.p[k+i], y.p[i]
		if i == 0 && a.kind == 'L' && b.kind == 'L' {
			if !strings.HasSuffix(a.lit, b.lit) {
				return false
			}
			continue
		}
		if (&Str{p: []Part{a}}).key() != (&Str{p: []Part{b}}).key() {
			return false
		}
	}
	return true
}

func init() {
	_ = fmt.Sprint
	for _, be := range []bool{false, true} {
		for _, r := range []bool{false, true} {
			be, r := be, r
			n := "3164-strict"
			if be {
				n = "3164-be"
			}
			if r {
				n += "-rfc3339"
			}
			addUnit(n, engUnit(func(w *World) *Engine { return h3164(w, opts3164{be: be, rfc3339: r}) }))
			addUnit(strings.Replace(n, "3164-", "3164-machine-", 1), engUnit(func(w *World) *Engine {
				return h3164(w, opts3164{ctor: "NewMachine", be: be, rfc3339: r, year: r, zone: r, locale: be})
			}))
			addUnit(n+"-options", func(w *World, res *UnitResult) {
				var known [8]map[string]bool
				for i := 0; i < 8; i++ {
					o := opts3164{be: be, rfc3339: r, year: i&1 != 0, zone: i&2 != 0, locale: i&4 != 0}
					known[i] = map[string]bool{}
					o.known = known[i]
					res.addEngine(h3164(w, o))
					l := o.names()
					for _, p := range orders(l...) {
						if len(p) == len(l) {
							o.order = p
							res.addEngine(h3164(w, o))
						}
					}
					// options given again replace the earlier ones
					var again []string
					for _, n := range l {
						again = append(again, n+"/other")
					}
					o.order = append(again, l...)
					res.addEngine(h3164(w, o))
					o.order = nil
					for j := len(l) - 1; j >= 0; j-- {
						o.order = append(o.order, l[j]+"/other", l[j])
					}
					if o.order != nil {
						res.addEngine(h3164(w, o))
					}
				}
				// a nil zone is none, and takes back one given before
				const tz, ltz = "WithTimezone", "WithLocaleTimezone"
				for _, c := range []struct {
					order        []string
					zone, locale bool
				}{
					{order: []string{tz + "/nil"}},
					{order: []string{ltz + "/nil"}},
					{order: []string{ltz + "/nil", tz + "/nil"}},
					{order: []string{tz, ltz + "/nil"}, zone: true},
					{order: []string{ltz, tz + "/nil"}, locale: true},
					{order: []string{tz, tz + "/nil"}},
					{order: []string{ltz, ltz + "/nil"}},
					{order: []string{tz + "/nil", tz}, zone: true},
					{order: []string{ltz + "/nil", ltz}, locale: true},
				} {
					o := opts3164{be: be, rfc3339: r, zone: c.zone, locale: c.locale, order: c.order}
					i := 0
					if c.zone {
						i |= 2
					}
					if c.locale {
						i |= 4
					}
					o.known = known[i]
					if be {
						o.order = append([]string{"WithBestEffort"}, o.order...)
					}
					if r {
						o.order = append(o.order, "WithRFC3339")
					}
					res.addEngine(h3164(w, o))
				}
				res.Config = "rfc3164.NewParser, every combination of year and zone options in every order"
			})
		}
	}
}
