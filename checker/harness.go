package main

// Common parts of the harnesses that drive the code under analysis with unknown input.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// seq runs steps one after the other; a step either calls a function (the next step finds the result in
// ret0) or returns true to go on directly.
type seq []func(s *State) bool

func (q seq) script(s *State) {
	for {
		if s.phase >= len(q) {
			s.e.nFinal++
			panic(&stopReq{})
		}
		if q[s.phase](s) {
			s.phase++
			continue
		}
		return
	}
}

func (s *State) callFn(fn *ssa.Function, args ...Val) bool {
	if fn == nil || fn.Blocks == nil {
		s.undecided("a function the property is about does not exist any more")
	}
	s.push(fn, args, nil)
	return false
}

// callMethod calls a method of the dynamic type of v.
func (s *State) callMethod(v Val, name string, args ...Val) bool {
	iv, ok := v.(*IfaceV)
	if !ok {
		s.undecided("method %s of %s", name, valKey(v))
	}
	fn := lookupMethod(s.e.prog, iv.typ, name)
	if fn == nil {
		s.undecided("no method %s on %s", name, typeName(iv.typ))
	}
	s.push(fn, append([]Val{iv.val}, args...), nil)
	return false
}

// errorText asks an error of a type of the repository for its text; errTextOf gives it afterwards.
func (s *State) errorText(err Val) bool {
	delete(s.flags, "errtext")
	s.ret0 = nil
	iv, ok := err.(*IfaceV)
	if !ok {
		return true
	}
	if _, ok := errText(iv); ok {
		return true
	}
	fn := lookupMethod(s.e.prog, iv.typ, "Error")
	if fn == nil || !s.e.inlineOK(fn) {
		return true
	}
	s.push(fn, []Val{iv.val}, nil)
	return false
}

// errTextOf is the text of the error of the last call.
func (s *State) errTextOf(err Val) (*Str, bool) {
	if x, ok := s.flags["errtext"].(*Str); ok {
		return x, true
	}
	return errText(err)
}

// resultSteps keep the results of Parse and the text of its error.
func resultSteps() seq {
	return seq{
		func(s *State) bool {
			s.flags["res"] = s.ret0
			t, ok := s.ret0.(*TupleV)
			if !ok || len(t.v) != 2 {
				s.undecided("Parse does not return two values")
			}
			return s.errorText(t.v[1])
		},
		func(s *State) bool {
			if x, ok := s.ret0.(*Str); ok {
				s.flags["errtext"] = x
			}
			s.ret0 = nil
			return true
		},
	}
}

func lookupMethod(prog *ssa.Program, t types.Type, name string) *ssa.Function {
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// fieldIndex finds the path of a (possibly embedded) field.
func fieldPath(t types.Type, name string) ([]int, types.Type) {
	o, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	v, ok := o.(*types.Var)
	if !ok {
		return nil, nil
	}
	return idx, v.Type()
}

// reach lists the objects reachable from v.
func (s *State) reach(v Val, f func(id int, o *Obj)) {
	seen := map[int]bool{}
	var walk func(v Val)
	visit := func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		if o := s.obj(id); o != nil {
			f(id, o)
			walk(o.val)
		}
	}
	walk = func(v Val) {
		z := &subst{}
		z.val = func(v Val) (Val, bool) {
			switch x := v.(type) {
			case PtrV:
				visit(x.obj)
			case *SliceV:
				visit(x.obj)
			case MapV:
				visit(x.obj)
			case *ElemV:
				visit(x.obj)
			case *modelFn, BuiltinV:
				return v, true
			}
			return nil, false
		}
		z.do(v)
	}
	walk(v)
}

// ownAll marks everything reachable from v as existing before the analysed call.
func (s *State) ownAll(v Val, name string, lock bool) {
	s.reach(v, func(id int, o *Obj) {
		if o.pre != "" {
			return
		}
		n := *o
		n.pre = name
		if o.typ != nil {
			n.pre += " (" + typeName(o.typ) + ")"
		}
		n.lock = lock
		s.heap[id] = &n
	})
}

// storedFields lists the struct fields of named types of the repository written by any function reachable (statically,
// through interfaces by name) from the given ones.
func (w *World) storedFields(roots ...*ssa.Function) map[*types.Var]bool {
	r := map[*types.Var]bool{}
	for fn := range w.reachable(roots...) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if _, same := selfCopy(st); same {
						continue
					}
					markWhole(st, r)
				}
				for _, addr := range storeTargets(ins) {
					markStored(addr, r)
				}
			}
		}
	}
	return r
}

// storeTargets lists the values through which an instruction changes memory.
func storeTargets(ins ssa.Instruction) []ssa.Value {
	switch x := ins.(type) {
	case *ssa.Store:
		return []ssa.Value{x.Addr}
	case *ssa.MapUpdate:
		return []ssa.Value{x.Map}
	case ssa.CallInstruction:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "copy", "clear":
				return []ssa.Value{x.Common().Args[0]}
			}
		}
	}
	return nil
}

// markStored marks the struct fields that hold the memory behind addr (the field itself, the array of a slice
// field, the map of a map field).
func markStored(addr ssa.Value, r map[*types.Var]bool) {
	direct := true // no load on the way so far
	for {
		switch x := addr.(type) {
		case *ssa.IndexAddr:
			addr = x.X
			continue
		case *ssa.Slice:
			addr = x.X
			continue
		case *ssa.UnOp:
			switch x.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				addr = x.X
				direct = false
				continue
			}
		case *ssa.FieldAddr:
			if local(x) && direct {
				return
			}
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			r[st.Field(x.Field)] = true
			addr = x.X
			continue
		}
		return
	}
}

// local says whether a field belongs to a local variable that is used as a value only.
func local(x *ssa.FieldAddr) bool {
	for {
		switch b := x.X.(type) {
		case *ssa.FieldAddr:
			x = b
			continue
		case *ssa.Alloc:
			return !b.Heap
		}
		return false
	}
}

// rewritten lists the fields that keep their value in an assignment like *m = T{f: m.f}, which x begins by clearing *m: the
// next instructions store there what was there before.
func rewritten(x *ssa.Store) map[int]bool {
	if c, ok := x.Val.(*ssa.Const); !ok || c.Value != nil {
		return nil
	}
	if _, ok := x.Val.Type().Underlying().(*types.Struct); !ok {
		return nil
	}
	if _, fresh := x.Addr.(*ssa.Alloc); fresh {
		return nil
	}
	var r map[int]bool
	after := false
	for _, ins := range x.Block().Instrs {
		if ins == ssa.Instruction(x) {
			after = true
			continue
		}
		if !after {
			continue
		}
		switch i := ins.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
			continue
		case *ssa.Store:
			if f, ok := selfCopy(i); ok && i.Addr.(*ssa.FieldAddr).X == x.Addr {
				if r == nil {
					r = map[int]bool{}
				}
				r[f] = true
			}
			continue
		}
		break
	}
	return r
}

// selfCopy recognises a store of what a field holds into the same field.
func selfCopy(x *ssa.Store) (int, bool) {
	fa, ok := x.Addr.(*ssa.FieldAddr)
	if !ok {
		return 0, false
	}
	ld, ok := x.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || ld.Block() != x.Block() {
		return 0, false
	}
	from, ok := ld.X.(*ssa.FieldAddr)
	if !ok || from.Field != fa.Field || from.X != fa.X {
		return 0, false
	}
	return fa.Field, true
}

// markWhole marks the fields changed by a store of a whole structure: all but those that it takes over from a structure of
// that type (whether it is the same one is looked at when the store is analysed).
func markWhole(x *ssa.Store, r map[*types.Var]bool) {
	st, ok := x.Val.Type().Underlying().(*types.Struct)
	if _, named := x.Val.Type().(*types.Named); !ok || !named {
		return
	}
	if _, fresh := x.Addr.(*ssa.Alloc); fresh {
		return
	}
	kept := rewritten(x)
	if ld, ok := x.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if a, ok := ld.X.(*ssa.Alloc); ok {
			kept = map[int]bool{}
			for _, ref := range *a.Referrers() {
				fa, ok := ref.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				for _, use := range *fa.Referrers() {
					if s, ok := use.(*ssa.Store); ok && s.Addr == fa {
						from, ok := s.Val.(*ssa.UnOp)
						if !ok {
							continue
						}
						if of, ok := from.X.(*ssa.FieldAddr); ok && of.Field == fa.Field && of.X != fa.X && types.Identical(of.X.Type(), fa.X.Type()) {
							kept[fa.Field] = true
						}
					}
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if !kept[i] {
			r[st.Field(i)] = true
		}
	}
}

// keeps says whether storing a whole structure leaves the fields that are not in mutable as they are.
func keeps(t types.Type, old, new Val, mutable map[*types.Var]bool) bool {
	st, ok := t.Underlying().(*types.Struct)
	o, ok1 := old.(*StructV)
	n, ok2 := new.(*StructV)
	if !ok || !ok1 || !ok2 || len(o.f) != len(n.f) {
		return valKey(old) == valKey(new)
	}
	for i := range o.f {
		if !mutable[st.Field(i)] && !keeps(st.Field(i).Type(), o.f[i], n.f[i], mutable) {
			return false
		}
	}
	return true
}

// reachable is the set of functions of the repository and the inlined libraries reachable from roots.
func (w *World) reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		if f.Pkg != nil && !w.inline[f.Pkg.Pkg.Path()] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if g, ok := (*o).(*ssa.Function); ok {
						add(g)
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					m := c.Common().Method
					for _, g := range w.implementers(c.Common().Value.Type(), m) {
						add(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range roots {
		add(f)
	}
	return seen
}

// implementers resolves an interface method to the methods of the repository's types.
func (w *World) implementers(it types.Type, m *types.Func) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	for _, p := range w.repo {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			pt := types.NewPointer(tn.Type())
			if types.Implements(pt, iface) {
				if f := w.prog.LookupMethod(pt, m.Pkg(), m.Name()); f != nil {
					r = append(r, f)
				}
			}
		}
	}
	return r
}

// forget replaces the content of the given fields of every object reachable from v by left-overs.
func (s *State) forget(v Val, fields map[*types.Var]bool) (n int) {
	s.reach(v, func(id int, o *Obj) {
		st, ok := o.val.(*StructV)
		if !ok || o.typ == nil {
			return
		}
		nv, k := forgetStruct(st, o.typ, fields)
		if k > 0 {
			c := *o
			c.val = nv
			s.heap[id] = &c
			n += k
		}
	})
	return n
}

func forgetStruct(v *StructV, t types.Type, fields map[*types.Var]bool) (*StructV, int) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return v, 0
	}
	f := append([]Val(nil), v.f...)
	n := 0
	for i := range f {
		if isTime(st.Field(i).Type()) {
			if fields[st.Field(i)] {
				f[i] = StaleV{st.Field(i).Name()}
				n++
			}
			continue
		}
		if sub, ok := f[i].(*StructV); ok {
			x, k := forgetStruct(sub, st.Field(i).Type(), fields)
			if k > 0 {
				f[i] = x
				n += k
				continue
			}
		}
		if fields[st.Field(i)] {
			f[i] = StaleV{st.Field(i).Name()}
			n++
		}
	}
	return &StructV{f}, n
}

// access installs the ownership rules: package variables are read only, objects that need the lock are
// changed (and their changing fields read) under it.
func (e *Engine) access(mutable map[*types.Var]bool) {
	e.onAccess = func(s *State, o *Obj, p PtrV, write bool) {
		e.oblig["memory access"]++
		if write && p.obj < 0 {
			s.note("global", "writes %s", o.pre)
		}
		if write && strings.HasPrefix(o.pre, "package") {
			s.note("global", "writes package data %s", typeName(o.typ))
		}
		if !o.lock {
			return
		}
		if write {
			v := fieldVar(o, p)
			ok := v != nil && mutable[v]
			if !ok && s.storing != nil && o.typ != nil {
				ty := o.typ
				if v != nil {
					ty = v.Type()
				}
				ok = keeps(ty, getPath(o.val, splitPath(p.path)), s.storing, mutable)
			}
			if !ok {
				s.undecided("writes %s%s, which was taken for constant between calls", o.pre, fieldName(o, p))
			}
		}
		held := false
		for k := range s.locks {
			if !write || !strings.HasPrefix(k, "shared ") {
				held = true
			}
		}
		if held {
			return
		}
		if write {
			s.note("lock", "writes %s%s without holding the parser's lock", o.pre, fieldName(o, p))
			return
		}
		if v := fieldVar(o, p); v != nil && mutable[v] {
			s.note("lock", "reads %s%s without holding the parser's lock", o.pre, fieldName(o, p))
		}
	}
}

func fieldVar(o *Obj, p PtrV) *types.Var {
	t := o.typ
	var r *types.Var
	for _, i := range splitPath(p.path) {
		if t == nil {
			return r
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok || i >= st.NumFields() {
			return r
		}
		r = st.Field(i)
		t = r.Type()
	}
	return r
}

func fieldName(o *Obj, p PtrV) string {
	if v := fieldVar(o, p); v != nil {
		return "." + v.Name()
	}
	return ""
}

// drain lets the reference automaton read on until its verdict on stream st is settled.
func (s *State) drain(st int) {
	t := s.streams[st]
	for {
		if m, ok := t.mon.(interface{ settled() bool }); ok && m.settled() {
			return
		}
		s.query(st)
		if t.status == stByte {
			s.advance(st)
			continue
		}
		s.finish(st)
		if m, ok := t.mon.(interface{ settled() bool }); ok && !m.settled() {
			s.undecided("internal: reference automaton not settled at the end")
		}
	}
}

// canon rewrites marks near the frontier so that equal texts have equal keys.
func (s *State) canon(v Val) Val {
	z := &subst{lin: func(l *Lin) *Lin { return s.norm(l) }}
	z.val = func(v Val) (Val, bool) {
		x, ok := v.(*Str)
		if !ok {
			return nil, false
		}
		for i := range x.p {
			if x.p[i].kind == 'S' {
				if lo, hi := s.interval(s.norm(x.p[i].b.sub(x.p[i].a))); lo == 0 && hi == 0 {
					r := &Str{}
					for j, p := range x.p {
						if j != i {
							r.push(p)
						}
					}
					return s.canon(r), true
				}
			}
		}
		return nil, false
	}
	return z.do(v)
}

// sameVal compares canonical values without forking.
func (s *State) sameVal(a, b Val) bool {
	return valKey(s.canon(a)) == valKey(s.canon(b))
}

func (s *State) show(v Val) string { return valKey(s.canon(v)) }

// deref loads without access checks; nil pointers give nil.
func (s *State) peek(v Val) Val {
	p, ok := v.(PtrV)
	if !ok {
		return nil
	}
	o := s.obj(p.obj)
	if o == nil {
		return nil
	}
	path := splitPath(p.path)
	if _, ok := o.val.(*Str); ok && len(path) == 1 { // an element of an array of bytes
		return s.loadElem(&ElemV{p.obj, "", con(int64(path[0]))})
	}
	return getPath(o.val, path)
}

// constText gives the value of an exported string constant.
func (w *World) constText(pkg, name string) string {
	p := w.pkgs[modPath+pkg]
	if p == nil {
		return "?missing package " + pkg
	}
	c, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.String {
		return "?missing constant " + name
	}
	return constant.StringVal(c.Val())
}

// checkIsolated enforces that a result shares nothing with memory that existed before the call.
func (s *State) checkIsolated(what string, v Val) {
	if x, ok := v.(StaleV); ok {
		s.note("shared", "%s is %s, kept from an earlier call", what, x.name)
	}
	s.reach(v, func(id int, o *Obj) {
		if o.input {
			s.note("alias", "%s refers to the caller's input buffer", what)
		}
		if o.pre != "" && !(strings.HasPrefix(o.pre, "package") && isErrObj(o)) {
			s.note("shared", "%s refers to %s, which outlives the call", what, o.pre)
		}
		if f, ok := o.val.(*StructV); ok && o.typ != nil {
			if st, ok := o.typ.Underlying().(*types.Struct); ok && st.NumFields() == len(f.f) {
				for i, y := range f.f {
					x, ok := y.(StaleV)
					if _, basic := st.Field(i).Type().Underlying().(*types.Basic); ok && !basic {
						s.note("shared", "%s contains %s, kept from an earlier call", what, x.name)
					}
				}
			}
		}
	})
}

func isErrObj(o *Obj) bool {
	_, ok := o.val.(*IfaceV)
	return ok
}

// newInput makes the caller's buffer holding stream st.
func (s *State) newInput(st int, t types.Type) Val {
	end := symLin(globalTab.pos(st, "End"))
	content := &Str{p: []Part{{kind: 'S', s: st, a: con(0), b: end}}}
	id := s.alloc(t, content)
	s.obj(id).input = true
	s.obj(id).pre = "the input buffer"
	// the buffer may be longer than the slice
	return &SliceV{id, con(0), end, symLin(globalTab.named("cap"+fmt.Sprint(st), 0, 1<<40)).add(end, 1)}
}

func (s *State) addStream(name string, mon Mon) int {
	id := len(s.streams)
	s.streams = append(s.streams, &Stream{id: id, name: name, mon: mon, dist: map[string]int{}, alias: map[string]string{}})
	return id
}
