package main

// Counters: numbers the code only adds to (messages seen, octets read, attempts). Their values would tell apart every
// number of frames, so they are forgotten at a frame boundary once they have got past the first few.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// counters are the struct fields and loop variables that are set to themselves plus or minus something.
type counters struct {
	fields map[*types.Var]bool
	phis   map[*ssa.Phi]bool
}

func (w *World) counters() *counters {
	w.countOnce.Do(func() { w.count = w.findCounters() })
	return w.count
}

func (w *World) findCounters() *counters {
	c := &counters{map[*types.Var]bool{}, map[*ssa.Phi]bool{}}
	field := func(v ssa.Value) *types.Var {
		if a, ok := v.(*ssa.FieldAddr); ok {
			return a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field)
		}
		return nil
	}
	for _, fn := range w.allFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					v := field(x.Addr)
					if v == nil {
						continue
					}
					if sums(x.Val, func(y ssa.Value) bool {
						u, ok := y.(*ssa.UnOp)
						return ok && u.Op == token.MUL && field(u.X) == v
					}, 0) {
						c.fields[v] = true
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if e != ssa.Value(x) && sums(e, func(y ssa.Value) bool { return y == ssa.Value(x) }, 0) {
							c.phis[x] = true
						}
					}
				}
			}
		}
	}
	return c
}

// sums says whether v is a sum or difference with a part that is from.
func sums(v ssa.Value, from func(ssa.Value) bool, depth int) bool {
	if depth > 8 {
		return false
	}
	if depth > 0 && from(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			return sums(x.X, from, depth+1) || x.Op == token.ADD && sums(x.Y, from, depth+1)
		}
	case *ssa.Convert:
		return sums(x.X, from, depth+1)
	case *ssa.Phi:
		if depth > 0 {
			for _, e := range x.Edges {
				if sums(e, from, depth+4) {
					return true
				}
			}
		}
	}
	return false
}

// forgetCounters replaces the values of counters, but for the first few numbers, by unknown ones.
func (s *State) forgetCounters(n *int) {
	c := s.e.w.counters()
	if len(c.fields) == 0 && len(c.phis) == 0 {
		return
	}
	forget := func(v Val, t types.Type) (Val, bool) {
		l, ok := v.(*Lin)
		if !ok || l.isConst() && l.c >= -1 && l.c <= 1 {
			return v, false
		}
		lo, hi, ok := typeRange(t)
		if !ok {
			return v, false
		}
		if !l.isConst() {
			for _, x := range l.t {
				if x.y.kind != 'N' && x.y.kind != 'T' {
					return v, false
				}
				if !strings.Contains(x.y.key, "lost#") {
					return v, false
				}
			}
			if l.c == 0 && len(l.t) == 1 && l.t[0].k == 1 && l.t[0].y.kind == 'N' && !strings.HasPrefix(l.t[0].y.name, "lost#new") {
				return v, false // as it was
			}
		}
		*n++
		y := symLin(globalTab.named("lost#new"+strconv.Itoa(*n), minInt, maxInt))
		if lo > minInt || hi < maxInt {
			s.addInterval(y, lo, hi)
		}
		return y, true
	}
	var walk func(v Val, t types.Type) (Val, bool)
	walk = func(v Val, t types.Type) (Val, bool) {
		f, ok := v.(*StructV)
		st, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 || st.NumFields() != len(f.f) {
			return v, false
		}
		var r []Val
		for i, y := range f.f {
			var z Val
			ch := false
			if c.fields[st.Field(i)] {
				z, ch = forget(y, st.Field(i).Type())
			} else {
				z, ch = walk(y, st.Field(i).Type())
			}
			if ch {
				if r == nil {
					r = append([]Val(nil), f.f...)
				}
				r[i] = z
			}
		}
		if r == nil {
			return v, false
		}
		return &StructV{r}, true
	}
	var ids []int
	for id, o := range s.heap {
		if o.typ != nil {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.heap[id]
		if v, ch := walk(o.val, o.typ); ch {
			s.setVal(id, v)
		}
	}
	for _, g := range s.frames {
		for _, b := range g.fn.Blocks {
			for _, ins := range b.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if v := g.regs[p]; v != nil && c.phis[p] && !strings.Contains(valKey(v), "lost#new") {
					if z, ch := forget(v, p.Type()); ch {
						g.regs[p] = z
					}
				}
			}
		}
	}
}
