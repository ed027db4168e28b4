package main

// Harnesses of the accessors: validity, facility and severity for every code.

import (
	"fmt"
	"go/types"
	"strings"
)

// words a text must contain (one of the alternatives)
var facilityWords = []string{"kernel", "user", "mail", "daemon", "authori", "syslog", "printer", "news", "uucp", "clock", "authori", "ftp", "ntp", "audit", "console|alert", "clock",
	"local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7"}
var facilityKeys = []string{"kern", "user", "mail", "daemon", "auth", "syslog", "lpr", "news", "uucp", "cron", "authpriv", "ftp", "ntp", "audit|security", "console|alert", "cron2",
	"local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7"}
var severityWords = []string{"unusable", "action", "critical", "error", "warning", "significant", "informational", "debug"}
var severityLevels = []string{"emergency", "alert", "critical", "error", "warning", "notice", "informational", "debug"}
var severityShort = []string{"emerg", "alert", "crit", "err", "warning|warn", "notice", "info", "debug"}

type accessor struct {
	name, field string
	want        []string
	exact       bool
}

var accessors = []accessor{
	{"FacilityMessage", "Facility", facilityWords, false},
	{"FacilityLevel", "Facility", facilityKeys, true},
	{"SeverityMessage", "Severity", severityWords, false},
	{"SeverityLevel", "Severity", severityLevels, true},
	{"SeverityShortLevel", "Severity", severityShort, true},
}

// hAccess checks one accessor on a message with or without its code. Its own field is unknown in full range.
func hAccess(w *World, pkg string, x accessor, present bool) *Engine {
	e := newEngine(w, "accessors")
	e.config = fmt.Sprintf("%s of a message of %s, code present=%v", x.name, strings.TrimPrefix(pkg, "/"), present)
	s := w.initial(e)
	e.access(nil)
	t := w.msgType(pkg)
	if t == nil {
		e.report(s, "undecided", "type SyslogMessage is missing")
		return e
	}
	var p PtrV
	var before map[string]string
	code := symLin(globalTab.named("old"+x.field, 0, 255))
	seen := map[string]int64{}
	e.script = seq{
		func(s *State) bool {
			p = s.newMessage(t, present, false)
			before = s.snapshot(p, t)
			return s.callMethod(&IfaceV{types.NewPointer(t), p}, x.name)
		},
		func(s *State) bool {
			s.checkUnchanged("accessor", before, s.snapshot(p, t))
			e.oblig["accessor result"]++
			_, isnil := s.ret0.(NilV)
			if !present {
				e.verdicts["absent"]++
				if !isnil {
					s.violate("accessor", "%s gives a text although %s is absent", x.name, x.field)
				}
				return true
			}
			if isnil {
				s.violate("accessor", "%s gives nil although %s is set", x.name, x.field)
			}
			lo, hi := s.interval(s.norm(code))
			if lo >= int64(len(x.want)) {
				e.verdicts["no such code"]++
				return true
			}
			if lo != hi {
				s.violate("accessor", "%s gives %s for every %s from %d to %d", x.name, s.show(s.peek(s.ret0)), x.field, lo, hi)
			}
			tx, ok := s.peek(s.ret0).(*Str)
			if !ok {
				s.undecided("accessor result %s", valKey(s.ret0))
			}
			l, ok := tx.isLit()
			if !ok || l == "" {
				s.violate("accessor", "%s gives %s for %s %d", x.name, s.show(tx), x.field, lo)
			}
			match := false
			for _, a := range strings.Split(x.want[lo], "|") {
				match = match || l == a || !x.exact && strings.Contains(strings.ToLower(strings.ReplaceAll(l, " ", "")), a) || !x.exact && strings.Contains(strings.ToLower(l), a)
			}
			if !match {
				s.violate("accessor", "%s gives %q for %s %d, want %s", x.name, l, x.field, lo, x.want[lo])
			}
			if o, dup := seen[l]; dup && o != lo && x.exact {
				s.violate("accessor", "%s gives %q for both %d and %d", x.name, l, o, lo)
			}
			seen[l] = lo
			e.verdicts[itoa(int(lo))]++
			return true
		},
	}.script
	if present {
		for i := range x.want {
			e.mustVerdicts = append(e.mustVerdicts, itoa(i))
		}
	} else {
		e.mustVerdicts = []string{"absent"}
	}
	e.run(s)
	return e
}

// hValid checks Valid.
func hValid(w *World, pkg string, present bool) *Engine {
	e := newEngine(w, "valid")
	e.config = fmt.Sprintf("Valid of a message of %s, priority present=%v", strings.TrimPrefix(pkg, "/"), present)
	s := w.initial(e)
	e.access(nil)
	t := w.msgType(pkg)
	if t == nil {
		e.report(s, "undecided", "type SyslogMessage is missing")
		return e
	}
	var p PtrV
	var before map[string]string
	pri := symLin(globalTab.named("oldPriority", 0, 255))
	ver := symLin(globalTab.named("oldVersion", 0, 65535))
	e.script = seq{
		func(s *State) bool {
			p = s.newMessage(t, present, false)
			before = s.snapshot(p, t)
			return s.callMethod(&IfaceV{types.NewPointer(t), p}, "Valid")
		},
		func(s *State) bool {
			s.checkUnchanged("accessor", before, s.snapshot(p, t))
			e.oblig["validity"]++
			got := s.truth(s.ret0)
			want := present && s.cmpGE(con(191), pri)
			if pkg == "/rfc5424" && want {
				want = s.cmpGE(ver, int64(1)) && s.cmpGE(con(999), ver)
			}
			e.verdicts[fmt.Sprint(want)]++
			if got != want {
				s.violate("accessor", "Valid is %v, want %v", got, want)
			}
			return true
		},
	}.script
	e.mustVerdicts = []string{"false"}
	if present {
		e.mustVerdicts = append(e.mustVerdicts, "true")
	}
	e.run(s)
	return e
}

// hCompute checks ComputeFromPriority.
func hCompute(w *World, pkg string, present bool) *Engine {
	e := newEngine(w, "compute")
	e.config = fmt.Sprintf("ComputeFromPriority on a message of %s, other parts present=%v", strings.TrimPrefix(pkg, "/"), present)
	s := w.initial(e)
	e.access(nil)
	t := w.msgType(pkg)
	if t == nil {
		e.report(s, "undecided", "type SyslogMessage is missing")
		return e
	}
	var p PtrV
	var before map[string]string
	val := symLin(globalTab.named("value", 0, 255))
	e.script = seq{
		func(s *State) bool {
			p = s.newMessage(t, present, present)
			before = s.snapshot(p, t)
			return s.callMethod(&IfaceV{types.NewPointer(t), p}, "ComputeFromPriority", val)
		},
		func(s *State) bool {
			after := s.snapshot(p, t)
			e.oblig["computed fields"]++
			s.checkUnchanged("accessor", before, after, "Priority", "Facility", "Severity")
			for _, x := range s.priFields(val) {
				if w := "&" + s.canonDeep(x.want); after[x.name] != w {
					s.violate("accessor", "%s is %s, want %s", x.name, after[x.name], w)
				}
			}
			return true
		},
	}.script
	e.run(s)
	return e
}

func init() {
	for _, pkg := range []string{"/rfc3164", "/rfc5424"} {
		pkg := pkg
		addUnit("access"+strings.ReplaceAll(pkg, "/rfc", "-"), func(w *World, r *UnitResult) {
			for _, present := range []bool{false, true} {
				for _, x := range accessors {
					r.addEngine(hAccess(w, pkg, x, present))
				}
				r.addEngine(hValid(w, pkg, present))
				r.addEngine(hCompute(w, pkg, present))
			}
			r.Config = "accessors of messages of " + pkg[1:]
		})
	}
}
