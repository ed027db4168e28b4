package main

// Harnesses of the trailer type's conversions.

import (
	"go/types"
)

var trailers = []struct {
	text string
	b    int64
}{{"LF", 10}, {"NUL", 0}}

func trailerType(w *World) types.Type { return w.typeOf("/nontransparent", "TrailerType") }

// hTrailerText checks the conversion from text: kind 0 TrailerTypeFromString, 1 UnmarshalText, 2 UnmarshalTOML.
func hTrailerText(w *World, name string) *Engine {
	e := newEngine(w, "trailer")
	e.config = "nontransparent " + name
	s := w.initial(e)
	e.access(nil)
	t := trailerType(w)
	if t == nil {
		e.report(s, "undecided", "type nontransparent.TrailerType is missing")
		return e
	}
	mon := newMonPart(0, "fold:LF,NUL", 0)
	var cell PtrV
	e.script = seq{
		func(s *State) bool {
			if name == "TrailerTypeFromString" {
				_, v := s.newText("text", mon)
				return s.callFn(w.fn("/nontransparent", name), v)
			}
			s.addStream("text", mon)
			in := s.newInput(0, types.NewSlice(types.Typ[types.Byte]))
			cell = PtrV{s.alloc(t, symLin(globalTab.named("oldtrailer", -100, 100))), ""}
			return s.callMethod(&IfaceV{types.NewPointer(t), cell}, name, in)
		},
		func(s *State) bool {
			s.flags["res"] = s.ret0
			s.ret0 = nil
			return true
		},
		func(s *State) bool {
			s.drain(0)
			m := s.streams[0].mon.(*monPart)
			var typ, err Val
			if name == "TrailerTypeFromString" {
				r, ok := s.flags["res"].(*TupleV)
				if !ok || len(r.v) != 2 {
					s.undecided("%s does not return two values", name)
				}
				typ, err = r.v[0], r.v[1]
			} else {
				typ, err = s.peek(cell), s.flags["res"]
			}
			e.oblig["conversion"]++
			noerr := s.isNil(err)
			if !m.ok() {
				e.verdicts["rejected"]++
				if noerr {
					s.violate("trailer", "%s accepts a text that names no trailer", name)
				}
				if name == "TrailerTypeFromString" {
					l := s.intv(typ)
					if s.cmpGE(l, int64(0)) && s.cmpGE(con(int64(len(trailers)-1)), l) {
						s.violate("trailer", "%s gives the valid type %s with the error", name, s.show(l))
					}
				}
				return true
			}
			e.verdicts[trailers[m.word()].text]++
			if !noerr {
				s.violate("trailer", "%s rejects %s", name, trailers[m.word()].text)
			}
			if !s.sameVal(typ, con(int64(m.word()))) {
				s.violate("trailer", "%s gives %s for %s", name, s.show(typ), trailers[m.word()].text)
			}
			return true
		},
	}.script
	e.mustVerdicts = []string{"rejected", "LF", "NUL"}
	e.run(s)
	return e
}

// hTrailerValue checks Value, String and MarshalText of every value of the type.
func hTrailerValue(w *World, name string) *Engine {
	e := newEngine(w, "trailer")
	e.config = "nontransparent TrailerType." + name
	s := w.initial(e)
	e.access(nil)
	t := trailerType(w)
	if t == nil {
		e.report(s, "undecided", "type nontransparent.TrailerType is missing")
		return e
	}
	val := symLin(globalTab.named("trailer", -1<<40, 1<<40))
	e.script = seq{
		func(s *State) bool {
			s.flags["val"] = val
			return s.callMethod(&IfaceV{t, val}, name)
		},
		func(s *State) bool {
			val := s.intv(s.flags["val"])
			e.oblig["conversion"]++
			which := -1
			for i := range trailers {
				if s.cmpGE(val, int64(i)) && s.cmpGE(con(int64(i)), val) {
					which = i
				}
			}
			res := s.ret0
			var err Val = NilV{}
			if t, ok := res.(*TupleV); ok && len(t.v) == 2 {
				res, err = t.v[0], t.v[1]
			}
			if which < 0 {
				e.verdicts["unknown"]++
				if name == "String" {
					if x, ok := res.(*Str); ok {
						for _, k := range trailers {
							if s.eqStr(x, lit(k.text)) {
								s.violate("trailer", "an unknown type is written as %s", k.text)
							}
						}
					}
				} else if s.isNil(err) {
					s.violate("trailer", "%s of an unknown type gives no error", name)
				}
				return true
			}
			e.verdicts[trailers[which].text]++
			if !s.isNil(err) {
				s.violate("trailer", "%s of %s gives an error", name, trailers[which].text)
			}
			ok := false
			var want string
			switch name {
			case "Value":
				ok = s.sameVal(res, con(trailers[which].b))
				want = con(trailers[which].b).key()
			case "String":
				ok = s.sameVal(res, lit(trailers[which].text))
				want = trailers[which].text
			default:
				ok = s.sameVal(s.bytesOf(res), lit(trailers[which].text))
				want = trailers[which].text
				res = s.bytesOf(res)
			}
			if !ok {
				s.violate("trailer", "%s of %s gives %s, want %s", name, trailers[which].text, s.show(res), want)
			}
			return true
		},
	}.script
	e.mustVerdicts = []string{"unknown", "LF", "NUL"}
	e.run(s)
	return e
}

func init() {
	addUnit("trailer", func(w *World, r *UnitResult) {
		for _, n := range []string{"TrailerTypeFromString", "UnmarshalText", "UnmarshalTOML"} {
			r.addEngine(hTrailerText(w, n))
		}
		for _, n := range []string{"Value", "String", "MarshalText"} {
			r.addEngine(hTrailerValue(w, n))
		}
		r.Config = "nontransparent TrailerType conversions"
	})
}
