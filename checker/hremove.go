package main

// Contract of the function that removes bytes at positions: it stands for "the text without its escaping
// backslashes" in the parser analyses.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { addUnit("remove", hRemove) }

func hRemove(w *World, r *UnitResult) {
	r.Config = "byte removal contract"
	var fns []*ssa.Function
	roots := w.implementersOf("/rfc5424", "Parse")
	for f := range w.reachable(roots...) {
		if f.Pkg != nil && w.isRepo(pkgPath(f)) && isRemover(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	if len(fns) == 0 {
		r.Notes = append(r.Notes, "no separate byte removing function: the parser analysis covers the removal itself")
		return
	}
	for _, fn := range fns {
		n0 := len(r.Findings)
		und := false
		var bad []UnitFinding
		for k := 0; k <= 4; k++ {
			e := removeEngine(w, fn, -1, nil, k)
			r.addEngine(e)
			for _, f := range e.findings {
				if f.cat == "undecided" {
					r.Notes = append(r.Notes, "unknown lengths: "+f.msg)
					und = true
				} else {
					bad = append(bad, UnitFinding{f.cat, f.msg, f.where, f.witness, f.config})
				}
			}
		}
		if !und {
			r.Notes = append(r.Notes, fn.String()+": texts of any length and bytes, up to 4 positions anywhere")
			continue
		}
		// not in reach with unknown lengths: every text of up to 6 unknown bytes and every set of positions
		r.Findings = append(r.Findings[:n0], bad...)
		for n := 0; n <= 6; n++ {
			for set := 0; set < 1<<n; set++ {
				var ps []int
				for i := 0; i < n; i++ {
					if set>>i&1 == 1 {
						ps = append(ps, i)
					}
				}
				r.addEngine(removeEngine(w, fn, n, ps, len(ps)))
			}
		}
		r.Notes = append(r.Notes, fn.String()+": texts of up to 6 unknown bytes, every set of positions")
	}
	if len(r.Findings) == 0 && r.Final == 0 {
		r.Findings = append(r.Findings, UnitFinding{Cat: "undecided", Msg: "nothing analysed"})
	}
}

// removeEngine analyses one shape: n < 0 is a text of unknown segments around k removed bytes.
func removeEngine(w *World, fn *ssa.Function, n int, ps []int, k int) *Engine {
	e := newEngine(w, "remove")
	e.config = fmt.Sprintf("%s with %d positions", fn, k)
	s := w.initial(e)
	off := symLin(globalTab.named("OFF", 0, 1<<40))
	data, want := &Str{}, &Str{}
	pos := &ListC{}
	bt := types.NewSlice(types.Typ[types.Byte])
	if n < 0 {
		at := off
		for i := 0; i <= k; i++ {
			seg := Part{kind: 'T', term: &TermV{op: "segment", args: []Val{con(int64(i))}}}
			data.push(seg)
			want.push(seg)
			at = at.add(s.partLen(seg), 1)
			if i < k {
				b := Part{kind: 'B', a: symLin(globalTab.named("RB"+itoa(i), 0, 255))}
				data.push(b)
				pos.e = append(pos.e, at)
				at = at.plus(1)
			}
		}
	} else {
		in := map[int]bool{}
		for _, p := range ps {
			in[p] = true
			pos.e = append(pos.e, off.plus(int64(p)))
		}
		for i := 0; i < n; i++ {
			b := Part{kind: 'B', a: symLin(globalTab.named("RB"+itoa(i), 0, 255))}
			data.push(b)
			if !in[i] {
				want.push(b)
			}
		}
	}
	di := s.alloc(bt, data)
	s.obj(di).input = true
	s.obj(di).pre = "the text given"
	l := s.strLen(data)
	in := &SliceV{di, con(0), l, l.add(symLin(globalTab.named("RCAP", 0, 1<<40)), 1)}
	var pv Val = NilV{}
	if len(pos.e) > 0 {
		pv = s.listSlice(pos, types.Typ[types.Int])
		o := s.obj(pv.(*SliceV).obj)
		o.pre = "the positions given"
	}
	e.access(nil)
	own := e.onAccess
	e.onAccess = func(s *State, o *Obj, p PtrV, write bool) {
		if write && o.pre != "" {
			s.violate("sd", "writes %s", o.pre)
		}
		own(s, o, p, write)
	}
	e.script = seq{
		func(s *State) bool { return s.callFn(fn, in, pv, off) },
		func(s *State) bool {
			e.oblig["removal result"]++
			got := s.bytesOf(s.ret0)
			if s.nonEmpty(s.canon(got).(*Str)).key() != s.nonEmpty(want).key() {
				s.violate("sd", "removing %d bytes gives %s, want %s", k, s.show(got), s.show(want))
			}
			s.checkIsolated("the result", s.ret0)
			return true
		},
	}.script
	e.run(s)
	return e
}

// nonEmpty leaves out the parts known to be empty.
func (s *State) nonEmpty(x *Str) *Str {
	r := &Str{}
	for _, p := range x.p {
		if !s.norm(s.partLen(p)).eq(con(0)) {
			r.push(p)
		}
	}
	return r
}
