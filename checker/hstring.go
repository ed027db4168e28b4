package main

// Harness of serialization: the text of messages of a number of shapes, all of whose texts and numbers are unknown.

import (
	"fmt"
	"go/types"
	"strings"
)

const timeLayout = "2006-01-02T15:04:05.999999Z07:00"

// The value of a parameter that is not the one read byte by byte; it has all the bytes that need care.
const otherValue = `\q"b\\s]e é%s` + "\xff\n"

func escapeText(x string) string {
	var b strings.Builder
	for i := 0; i < len(x); i++ {
		if strings.IndexByte(`"\]`, x[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(x[i])
	}
	return b.String()
}

func textTerm(name string, i ...int) *Str {
	t := &TermV{op: "text", args: []Val{lit(name)}}
	for _, x := range i {
		t.args = append(t.args, con(int64(x)))
	}
	return &Str{p: []Part{{kind: 'T', term: t}}}
}

// assumeOrder makes the names different, not empty and ascending.
func (s *State) assumeOrder(l []*Str) {
	for i, x := range l {
		s.addInterval(s.strLen(x), 1, maxInt)
		for _, y := range l[i+1:] {
			a, b := x, y
			less := true
			if a.key() > b.key() {
				a, b, less = b, a, false
			}
			s.setAtom(&TermV{op: "streq", args: []Val{a, b}}, false)
			s.setAtom(&TermV{op: "strless", args: []Val{a, b}}, less)
		}
	}
}

type stringShape struct {
	sd     []int // parameters per element, nil: no structured data
	stream int   // the parameter whose value is read byte by byte (-1: all)
	absent map[string]bool
}

func (x stringShape) String() string {
	var l []string
	if x.sd == nil {
		l = append(l, "no structured data")
	} else {
		l = append(l, fmt.Sprintf("elements with %v parameters", x.sd))
		if x.stream >= 0 {
			l = append(l, fmt.Sprintf("value %d of any bytes", x.stream))
		}
	}
	if len(x.absent) > 0 {
		l = append(l, "without "+strings.Join(sortedKeys(x.absent), ", "))
	}
	return strings.Join(l, ", ")
}

func hString(w *World, x stringShape) *Engine {
	e := newEngine(w, "string")
	e.config = "String of a message with " + x.String()
	e.permute = true
	e.anyText = true
	s := w.initial(e)
	e.access(nil)
	t := w.msgType("/rfc5424")
	if t == nil {
		e.report(s, "undecided", "type rfc5424.SyslogMessage is missing")
		return e
	}
	total := 0
	for _, n := range x.sd {
		total += n
	}
	streams := 0
	mons := []Mon{}
	var p PtrV
	var before map[string]string
	var ids []*Str
	var names [][]*Str
	type pv struct {
		st  int
		val Val
	}
	var vals [][]pv
	e.script = seq{
		func(s *State) bool {
			msg := s.unknownStruct(t, "", true, false).(*StructV)
			var fill func(v *StructV, t types.Type)
			fill = func(v *StructV, t types.Type) {
				st := t.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if sub, ok := v.f[i].(*StructV); ok {
						fill(sub, f.Type())
						continue
					}
					if x.absent[f.Name()] {
						v.f[i] = NilV{}
					}
					if f.Name() == "StructuredData" && x.sd != nil {
						sdT := f.Type().(*types.Pointer).Elem()
						inT := sdT.Underlying().(*types.Map).Elem()
						outer := &MapC{}
						ids, names, vals = nil, nil, nil
						k := 0
						for a, n := range x.sd {
							id := textTerm("id", a)
							ids = append(ids, id)
							inner := &MapC{}
							var nl []*Str
							var vl []pv
							for b := 0; b < n; b++ {
								nm := textTerm("name", a, b)
								nl = append(nl, nm)
								v := pv{-1, lit(otherValue)}
								if x.stream < 0 || x.stream == k {
									m := newMonPart(streams, "escape", 0)
									mons = append(mons, m)
									v.st, v.val = s.newText(fmt.Sprintf("value%d", k), m)
									streams++
								}
								k++
								vl = append(vl, v)
								inner.ops = append(inner.ops, mapOp{key: nm, val: v.val})
							}
							s.assumeOrder(nl)
							names = append(names, nl)
							vals = append(vals, vl)
							outer.ops = append(outer.ops, mapOp{key: id, val: MapV{s.alloc(inT, inner)}})
						}
						s.assumeOrder(ids)
						v.f[i] = PtrV{s.alloc(sdT, MapV{s.alloc(sdT, outer)}), ""}
					}
				}
			}
			fill(msg, t)
			p = PtrV{s.alloc(t, msg), ""}
			s.flags["msg"] = p
			for _, n := range []string{"Hostname", "Appname", "ProcID", "MsgID", "Message"} {
				if v, ok := s.textField(p, t, n); ok {
					s.addInterval(s.strLen(v), 1, maxInt)
					if n != "Message" {
						s.setAtom(&TermV{op: "streq", args: []Val{lit("-"), v}}, false)
						s.setAtom(&TermV{op: "streq", args: []Val{v, lit("-")}}, false)
					}
				}
			}
			before = s.snapshot(p, t)
			return s.callMethod(&IfaceV{types.NewPointer(t), p}, "String")
		},
		func(s *State) bool {
			s.flags["res"] = s.ret0
			s.ret0 = nil
			return true
		},
		func(s *State) bool {
			for i := range s.streams {
				s.drain(i)
			}
			e.oblig["serialized text"]++
			s.checkUnchanged("string", before, s.snapshot(p, t))
			r, ok := s.flags["res"].(*TupleV)
			if !ok || len(r.v) != 2 {
				s.undecided("String does not return two values")
			}
			noerr := s.isNil(r.v[1])
			pri, pok := s.numField(p, t, "Priority")
			ver, _ := s.numField(p, t, "Version")
			valid := pok && s.cmpGE(con(191), pri) && s.cmpGE(ver, int64(1)) && s.cmpGE(con(999), ver)
			if !valid {
				e.verdicts["invalid"]++
				if noerr {
					s.violate("string", "a message without valid priority and version is serialized without error")
				}
				if !s.sameVal(r.v[0], emptyStr) {
					s.violate("string", "a message without valid priority and version gives the text %s", s.show(r.v[0]))
				}
				return true
			}
			e.verdicts["valid"]++
			if !noerr {
				s.violate("string", "a valid message gives an error")
			}
			num := func(l *Lin) *Str {
				r := &Str{}
				r.push(Part{kind: 'D', a: s.named(l)})
				return r
			}
			want := concat(lit("<"), num(pri), lit(">"), num(ver), lit(" "))
			if x.absent["Timestamp"] {
				want = concat(want, lit("-"))
			} else {
				want = concat(want, &Str{p: []Part{{kind: 'T', term: &TermV{op: "timefmt", args: []Val{lit(timeLayout), s.fieldVal(p, t, "Timestamp")}}}}})
			}
			for _, n := range []string{"Hostname", "Appname", "ProcID", "MsgID"} {
				if v, ok := s.textField(p, t, n); ok {
					want = concat(want, lit(" "), v)
				} else {
					want = concat(want, lit(" -"))
				}
			}
			want = concat(want, lit(" "))
			if x.sd == nil {
				want = concat(want, lit("-"))
			}
			for a := range x.sd {
				want = concat(want, lit("["), ids[a])
				for b, n := range names[a] {
					v := vals[a][b]
					var esc *Str
					if v.st < 0 {
						esc = lit(escapeText(otherValue))
					} else {
						esc = s.streams[v.st].mon.(*monPart).escaped(s)
					}
					want = concat(want, lit(" "), n, lit(`="`), esc, lit(`"`))
				}
				want = concat(want, lit("]"))
			}
			if v, ok := s.textField(p, t, "Message"); ok {
				want = concat(want, lit(" "), v)
			}
			if !s.sameVal(r.v[0], want) {
				s.violate("string", "the text is %s, want %s", s.show(r.v[0]), s.show(want))
			}
			return true
		},
	}.script
	e.mustVerdicts = []string{"invalid"}
	if !x.absent["Priority"] {
		e.mustVerdicts = append(e.mustVerdicts, "valid")
	}
	e.run(s)
	return e
}

// fieldVal is the content of a field of a message, behind its pointer; nil when the pointer is nil.
func (s *State) fieldVal(p PtrV, t types.Type, name string) Val {
	idx, _ := fieldPath(t, name)
	if idx == nil {
		s.undecided("field %s is missing", name)
	}
	v := s.peek(p)
	for _, i := range idx {
		v = v.(*StructV).f[i]
	}
	if _, ok := v.(NilV); ok {
		return nil
	}
	if _, ok := v.(PtrV); ok {
		return s.peek(v)
	}
	return v
}

func (s *State) textField(p PtrV, t types.Type, name string) (*Str, bool) {
	v, ok := s.fieldVal(p, t, name).(*Str)
	return v, ok
}

func (s *State) numField(p PtrV, t types.Type, name string) (*Lin, bool) {
	v, ok := s.fieldVal(p, t, name).(*Lin)
	return v, ok
}

func init() {
	addUnit("string-header", func(w *World, r *UnitResult) {
		names := []string{"Timestamp", "Hostname", "Appname", "ProcID", "MsgID", "Message"}
		for m := 0; m < 1<<len(names); m++ {
			x := stringShape{absent: map[string]bool{}}
			for i, n := range names {
				if m>>i&1 == 1 {
					x.absent[n] = true
				}
			}
			r.addEngine(hString(w, x))
		}
		r.addEngine(hString(w, stringShape{absent: map[string]bool{"Priority": true}}))
		r.Config = "String of messages without structured data, each part present or absent"
	})
	addUnit("string-sd", func(w *World, r *UnitResult) {
		for _, sd := range [][]int{{0}, {1}, {2}, {3}, {0, 0}, {1, 1}, {0, 1}, {2, 1}, {1, 2}, {0, 0, 0}, {1, 0, 1}, {1, 1, 1}, {2, 2}, {2, 1, 1}} {
			total := 0
			for _, n := range sd {
				total += n
			}
			all := map[string]bool{}
			if len(sd) == 1 {
				all = map[string]bool{"Timestamp": true, "Hostname": true, "Appname": true, "ProcID": true, "MsgID": true, "Message": true}
			}
			if total == 0 {
				r.addEngine(hString(w, stringShape{sd: sd}))
				continue
			}
			r.addEngine(hString(w, stringShape{sd: sd, stream: 0, absent: all}))
			for k := 0; k < total; k++ {
				r.addEngine(hString(w, stringShape{sd: sd, stream: k}))
			}
		}
		r.Config = "String of messages with structured data of up to three elements"
	})
}
