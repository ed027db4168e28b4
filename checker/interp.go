package main

// Abstract execution of SSA instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const stepLimit = 60000

// errTyp marks error values built by fmt.Errorf and errors.New.
var errTyp = types.NewNamed(types.NewTypeName(token.NoPos, nil, "anError", nil), types.NewStruct(nil, nil), nil)

func mkErr(text *Str) *IfaceV {
	return &IfaceV{errTyp, &TermV{op: "err", args: []Val{text}, nonnil: true}}
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func zero(t types.Type) Val {
	if isTime(t) {
		return &TermV{op: "time.zero"}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV(false)
		case u.Info()&types.IsInteger != 0:
			return con(0)
		case u.Info()&types.IsString != 0:
			return emptyStr
		case u.Kind() == types.UnsafePointer:
			return NilV{}
		}
		return UnkV{why: "float"}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return NilV{}
	case *types.Struct:
		r := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, zero(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		if u.Len() > 70000 {
			return UnkV{why: "huge array"}
		}
		r := &ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			r.e = append(r.e, zero(u.Elem()))
		}
		return r
	case *types.Tuple:
		r := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			r.v = append(r.v, zero(u.At(i).Type()))
		}
		return r
	}
	return UnkV{why: "zero of " + t.String()}
}

// zeroObj is the content of a fresh variable of type t.
func zeroObj(t types.Type) Val {
	if a, ok := t.Underlying().(*types.Array); ok {
		if isByteType(a.Elem()) {
			return &Str{p: zeros(a.Len())}
		}
		l := &ListC{}
		if a.Len() > 70000 {
			return UnkV{why: "huge array"}
		}
		for i := int64(0); i < a.Len(); i++ {
			l.e = append(l.e, zero(a.Elem()))
		}
		return l
	}
	return zero(t)
}

func zeros(n int64) []Part {
	x := &Str{}
	x.push(Part{kind: 'Z', a: con(n)})
	return x.p
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return BoolV(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return con(i)
			}
			if _, ok := constant.Uint64Val(v); ok {
				return symLin(globalTab.term(&TermV{op: "bigconst", args: []Val{lit(v.ExactString())}}, maxInt, maxInt))
			}
		case b.Info()&types.IsString != 0:
			return lit(constant.StringVal(c.Value))
		}
	}
	return UnkV{why: "constant " + c.String()}
}

func (s *State) eval(f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return s.e.global(s, x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return BuiltinV{x}
	}
	r, ok := f.regs[v]
	if !ok {
		s.undecided("value %s of %s is not available", v.Name(), f.fn)
	}
	return r
}

// step executes one instruction of the top frame.
func (s *State) step() {
	f := s.top()
	ins := f.block.Instrs[f.idx]
	s.steps++
	if s.steps > stepLimit {
		s.violate("term", "endless loop in %s: no further input is consumed", f.fn)
	}
	if debugTrace {
		fmt.Fprintln(os.Stderr, f.fn.Name(), f.block.Index, f.idx, ins)
	}
	s.e.seen(f.fn)
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// evaluate all phis of the block at once
		var vals []Val
		var phis []*ssa.Phi
		for _, i := range f.block.Instrs[f.idx:] {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range f.block.Preds {
				if pr == f.prev {
					vals = append(vals, s.eval(f, p.Edges[k]))
					phis = append(phis, p)
					break
				}
			}
		}
		for i, p := range phis {
			f.regs[p] = s.frontierConst(p, vals[i])
		}
		f.idx += len(phis)
		return
	case *ssa.Jump:
		s.jump(f, f.block.Succs[0])
		return
	case *ssa.If:
		if s.truth(s.eval(f, x.Cond)) {
			s.jump(f, f.block.Succs[0])
		} else {
			s.jump(f, f.block.Succs[1])
		}
		return
	case *ssa.Return:
		var r Val
		switch len(x.Results) {
		case 0:
		case 1:
			r = s.eval(f, x.Results[0])
		default:
			t := &TupleV{}
			for _, y := range x.Results {
				t.v = append(t.v, s.eval(f, y))
			}
			r = t
		}
		s.ret(r)
		return
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			s.callVal(nil, d.fn, d.args, d.call)
			return
		}
	case *ssa.Defer:
		fn, args := s.callee(f, &x.Call)
		f.defers = append(f.defers, deferred{fn, args, &x.Call})
	case *ssa.Call:
		fn, args := s.callee(f, &x.Call)
		s.callVal(x, fn, args, &x.Call)
		return
	case *ssa.Go:
		s.violate("effect", "starts a goroutine in %s", f.fn)
	case *ssa.Panic:
		s.violate("panic", "explicit panic in %s", f.fn)
	case *ssa.Store:
		a, v := s.eval(f, x.Addr), s.eval(f, x.Val)
		if el, ok := a.(*ElemV); ok {
			s.storeElem(el, v)
			break
		}
		p := s.ptr(a)
		if kept := rewritten(x); len(kept) > 0 {
			if n, ok := v.(*StructV); ok {
				if old, ok := s.load(p).(*StructV); ok && len(old.f) == len(n.f) {
					c := append([]Val(nil), n.f...)
					for i := range kept {
						c[i] = old.f[i]
					}
					v = &StructV{c}
				}
			}
		}
		s.store(p, v)
	case *ssa.MapUpdate:
		s.mapUpdate(s.eval(f, x.Map), s.eval(f, x.Key), s.eval(f, x.Value))
	case ssa.Value:
		v := s.value(f, x)
		if _, ok := x.(*ssa.BinOp); ok {
			v = s.frontierConst(x, v)
		}
		f.regs[x] = v
	default:
		s.undecided("instruction %T in %s", ins, f.fn)
	}
	f.idx++
}

// frontierConst turns a constant that is the position of a frontier still near the start into that position.
func (s *State) frontierConst(r ssa.Value, v Val) Val {
	l, ok := v.(*Lin)
	if !ok || !l.isConst() || len(s.streams) == 0 || !s.e.isPosReg(r) {
		return v
	}
	if len(s.streams) > 1 || s.e.anyText {
		refs, other := s.textsOf(s.top())
		if len(refs) == 0 && other {
			return v // an index into some other text
		}
		if len(refs) > 0 {
			for i := len(s.streams) - 1; i >= 0; i-- {
				if refs[i] {
					if x := s.frontierConstOf(i, l); x != nil {
						return x
					}
				}
			}
			return v
		}
	}
	for i := len(s.streams) - 1; i >= 0; i-- {
		if x := s.frontierConstOf(i, l); x != nil {
			return x
		}
	}
	return v
}

// textsOf lists the streams whose texts the frame holds, and says whether it holds other texts.
func (s *State) textsOf(f *Frame) (map[int]bool, bool) {
	refs := map[int]bool{}
	other := false
	for _, v := range f.regs {
		var x *Str
		switch v := v.(type) {
		case *Str:
			x = v
		case *SliceV:
			if o := s.obj(v.obj); o != nil {
				x, _ = o.val.(*Str)
			}
		}
		if x == nil || len(x.p) == 0 {
			continue
		}
		st := false
		for _, p := range x.p {
			if p.kind == 'S' {
				refs[p.s] = true
				st = true
			}
		}
		other = other || !st
	}
	return refs, other
}

func (s *State) frontierConstOf(i int, l *Lin) Val {
	{
		t := s.streams[i]
		if d, ok := t.dist["Start"]; ok && t.started && (int64(d) == l.c || int64(d)+1 == l.c && t.status != stEnd) {
			return s.H(i).plus(l.c - int64(d))
		}
	}
	return nil
}

func (s *State) jump(f *Frame, b *ssa.BasicBlock) {
	f.prev = f.block
	f.block = b
	f.idx = 0
}

func (s *State) truth(v Val) bool {
	switch x := v.(type) {
	case BoolV:
		return bool(x)
	case StaleV:
		s.note("history", "decision depends on %s, a leftover of an earlier call", x.name)
		return s.atom(&TermV{op: "leftover", args: []Val{lit(x.name)}})
	case *TermV:
		return s.atom(x)
	}
	s.undecided("condition %s", valKey(v))
	return false
}

// ret returns from the top frame.
func (s *State) ret(r Val) {
	f := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		s.ret0 = r
		s.phase++
		return
	}
	c := s.top()
	if f.tmpTo > 0 {
		if c.tmp == nil {
			c.tmp = map[int]Val{}
		}
		c.tmp[f.tmpTo] = r
		return
	}
	switch x := c.block.Instrs[c.idx].(type) {
	case *ssa.Call:
		s.setResult(c, x, r)
	case *ssa.RunDefers:
		// re-executed
	}
}

func (s *State) setResult(c *Frame, x *ssa.Call, r Val) {
	if r != nil {
		c.regs[x] = r
	} else {
		c.regs[x] = &TupleV{}
	}
	c.tmp = nil
	c.idx++
}

// callee evaluates the function value and arguments of a call.
func (s *State) callee(f *Frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := s.eval(f, c.Value)
		for _, a := range c.Args {
			args = append(args, s.eval(f, a))
		}
		return s.method(recv, c.Method, args)
	}
	fn := s.eval(f, c.Value)
	for _, a := range c.Args {
		args = append(args, s.eval(f, a))
	}
	return fn, args
}

// method resolves an interface method call.
func (s *State) method(recv Val, m *types.Func, args []Val) (Val, []Val) {
	switch r := recv.(type) {
	case *IfaceV:
		if tv, ok := r.val.(*TermV); ok && r.typ == errTyp {
			if m.Name() == "Error" {
				return &modelFn{"errtext"}, []Val{tv}
			}
			s.undecided("method %s of an error", m.Name())
		}
		if o, ok := r.val.(OpaqueFn); ok {
			return &modelFn{"opaque." + m.Name()}, append([]Val{o}, args...)
		}
		fn := s.e.prog.LookupMethod(r.typ, m.Pkg(), m.Name())
		if fn == nil {
			s.undecided("method %s of %s", m.Name(), typeName(r.typ))
		}
		return &FuncV{fn: fn}, append([]Val{r.val}, args...)
	case NilV:
		s.violate("panic", "method %s called on a nil interface", m.Name())
	case StaleV:
		s.violate("history", "call on %s, a leftover of an earlier call", r.name)
	}
	s.undecided("dynamic call of %s on %s", m.Name(), valKey(recv))
	return nil, nil
}

// modelFn is a function value handled by a model only.
type modelFn struct{ name string }

// callVal performs a call; x is nil for deferred calls.
func (s *State) callVal(x *ssa.Call, fn Val, args []Val, cc *ssa.CallCommon) {
	f := s.top()
	done := func(r Val) {
		if x != nil {
			s.setResult(f, x, r)
		}
	}
	switch v := fn.(type) {
	case BuiltinV:
		done(s.builtin(v.b.Name(), args, cc))
		return
	case *modelFn:
		s.e.curCall = cc
		done(s.e.models[v.name](s, args))
		return
	case *FuncV:
		if v.fn.Synthetic == "package initializer" && v.fn.Pkg != s.e.w.running && !s.e.w.isRepo(v.fn.Pkg.Pkg.Path()) {
			done(nil)
			return
		}
		name := v.fn.String()
		if v.fn.Origin() != nil {
			name = v.fn.Origin().String()
		}
		if m := s.e.override[v.fn]; m != nil {
			done(m(s, args))
			return
		}
		if m := s.e.models[name]; m != nil {
			s.e.used["model "+name] = true
			s.e.curCall = cc
			done(m(s, args))
			return
		}
		if r, ok := s.containsOne(name, args); ok {
			done(BoolV(r))
			return
		}
		if t := s.e.shim[name]; t != nil {
			s.e.used["shim "+name] = true
			s.push(t, args, nil)
			return
		}
		if len(v.fn.Blocks) == 0 {
			s.undecided("call of %s, which has no Go body", name)
		}
		if !s.e.inlineOK(v.fn) {
			s.undecided("call of %s is outside the analysed packages", name)
		}
		s.push(v.fn, args, v.bind)
		return
	case OpaqueFn:
		done(s.e.opaqueCall(s, v, args))
		return
	case NilV:
		s.violate("panic", "call of a nil function in %s", f.fn)
	case StaleV:
		s.violate("history", "call through %s, a leftover of an earlier call", v.name)
	}
	s.undecided("call of %s", valKey(fn))
}

func (s *State) push(fn *ssa.Function, args, bind []Val) *Frame {
	if len(s.frames) > 40 {
		s.undecided("recursion in %s", fn)
	}
	g := &Frame{fn: fn, block: fn.Blocks[0], regs: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		g.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		g.regs[p] = bind[i]
	}
	s.frames = append(s.frames, g)
	return g
}

type reexec struct{}

// subcall runs a function on behalf of a model; the model is executed again afterwards.
func (s *State) subcall(k int, fn *ssa.Function, args []Val) Val {
	f := s.top()
	if r, ok := f.tmp[k]; ok {
		return r
	}
	g := s.push(fn, args, nil)
	g.tmpTo = k
	panic(reexec{})
}

func (s *State) ptr(v Val) PtrV {
	s.e.oblig["non-nil"]++
	switch p := v.(type) {
	case PtrV:
		return p
	case NilV:
		s.violate("panic", "nil pointer dereference in %s", s.top().fn)
	case StaleV:
		s.violate("history", "access through %s, a leftover of an earlier call", p.name)
	}
	s.undecided("access through %s in %s", valKey(v), s.top().fn)
	return PtrV{}
}

func typeRange(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, maxInt, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	}
	return minInt, maxInt, true
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// wrap reduces an integer into the range of its type.
func (s *State) wrap(l *Lin, t types.Type) *Lin {
	lo, hi, ok := typeRange(t)
	if !ok || lo == minInt {
		return l
	}
	if l.isConst() {
		if l.c >= lo && l.c <= hi {
			return l
		}
		switch t.Underlying().(*types.Basic).Kind() {
		case types.Uint8:
			return con(int64(uint8(l.c)))
		case types.Uint16:
			return con(int64(uint16(l.c)))
		case types.Uint32:
			return con(int64(uint32(l.c)))
		case types.Int8:
			return con(int64(int8(l.c)))
		case types.Int16:
			return con(int64(int16(l.c)))
		case types.Int32:
			return con(int64(int32(l.c)))
		}
		return symLin(globalTab.term(&TermV{op: "wrap64", args: []Val{l}}, 0, maxInt))
	}
	a, b := s.interval(s.norm(l))
	l = s.named(l)
	if a >= lo && b <= hi {
		return l
	}
	a, b = s.interval(s.norm(l))
	if a >= lo && b <= hi {
		return l
	}
	if p := hi - lo + 1; hi < 1<<40 && a > -1<<40 && b < 1<<40 && floorDiv(a-lo, p) == floorDiv(b-lo, p) {
		return l.plus(-p * floorDiv(a-lo, p)) // every value wraps alike
	}
	if hi == maxInt {
		if a >= lo {
			return l
		}
		if op := "wrap64"; true {
			return symLin(globalTab.term(&TermV{op: op, args: []Val{l}}, 0, maxInt))
		}
	}
	return symLin(globalTab.term(&TermV{op: fmt.Sprintf("wrap%d", hi-lo+1), args: []Val{l, con(lo)}}, lo, hi))
}

// named replaces decimal readings of grammar parts by their names.
func (s *State) named(l *Lin) *Lin {
	for _, t := range s.streams {
		if t.mon == nil {
			continue
		}
		for _, n := range t.mon.Named() {
			// digits at base+0..k-1, most significant first
			base := t.resolve(n.base)
			k := t.digits(n)
			if k < 1 || k > 20 {
				continue
			}
			e := con(0)
			pw := int64(1)
			for i := k - 1; i >= 0; i-- {
				var y *Lin
				if base == "Start" {
					y = symLin(globalTab.byteAt(t.id, "", int(i)))
				} else {
					y = s.byteSym(t.id, symLin(globalTab.pos(t.id, base)).plus(i))
				}
				e = e.add(y, pw).plus(-48 * pw)
				pw *= 10
			}
			if len(e.t) == 0 || len(l.t) < len(e.t) {
				continue
			}
			// find multiplier
			var mult int64
			for _, u := range l.t {
				if u.y == e.t[0].y && u.k%e.t[0].k == 0 {
					mult = u.k / e.t[0].k
				}
			}
			if mult == 0 {
				continue
			}
			r := l.add(e, -mult)
			if len(r.t) <= len(l.t)-len(e.t) {
				l = r.add(symLin(n.sym), mult)
			}
		}
	}
	return l
}

func (s *State) value(f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := s.alloc(t, zeroObj(t))
		s.obj(id).site = x
		return PtrV{id, ""}
	case *ssa.BinOp:
		return s.binop(x.Op, s.eval(f, x.X), s.eval(f, x.Y), x.Type(), x.X.Type())
	case *ssa.UnOp:
		a := s.eval(f, x.X)
		switch x.Op {
		case token.MUL:
			if el, ok := a.(*ElemV); ok {
				return s.loadElem(el)
			}
			if sl, ok := a.(*SliceV); ok && isString(x.Type()) {
				return s.share(sl)
			}
			p := s.ptr(a)
			r := s.load(p)
			if sl, ok := r.(*SliceV); ok && isString(x.Type()) {
				return s.share(sl)
			}
			if l, ok := r.(*ListC); ok {
				if _, isArr := x.Type().Underlying().(*types.Array); isArr && l.tok == nil {
					return &ArrayV{l.e}
				}
			}
			return r
		case token.NOT:
			return BoolV(!s.truth(a))
		case token.SUB:
			if l, ok := a.(*Lin); ok {
				return s.wrap(l.mul(-1), x.Type())
			}
		case token.XOR:
			if l, ok := a.(*Lin); ok {
				if _, hi, _ := typeRange(x.Type()); hi < maxInt {
					return s.wrap(l.mul(-1).plus(-1), x.Type())
				}
				if lo, _, _ := typeRange(x.Type()); lo == minInt {
					return l.mul(-1).plus(-1)
				}
			}
		}
		return s.taint(fmt.Sprintf("operator %s", x.Op), a)
	case *ssa.ChangeType:
		return s.eval(f, x.X)
	case *ssa.Convert:
		return s.convert(s.eval(f, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		return s.eval(f, x.X)
	case *ssa.MakeInterface:
		return &IfaceV{x.X.Type(), s.eval(f, x.X)}
	case *ssa.TypeAssert:
		return s.typeAssert(x, s.eval(f, x.X))
	case *ssa.Extract:
		t := s.eval(f, x.Tuple)
		if tv, ok := t.(*TupleV); ok {
			return tv.v[x.Index]
		}
		return s.taint("tuple", t)
	case *ssa.Field:
		t := s.eval(f, x.X)
		if sv, ok := t.(*StructV); ok {
			return sv.f[x.Field]
		}
		return s.taint("field", t)
	case *ssa.FieldAddr:
		p := s.ptr(s.eval(f, x.X))
		return PtrV{p.obj, p.path + "/" + strconv.Itoa(x.Field)}
	case *ssa.Index:
		return s.index(s.eval(f, x.X), s.intv(s.eval(f, x.Index)))
	case *ssa.IndexAddr:
		return s.indexAddr(s.eval(f, x.X), s.intv(s.eval(f, x.Index)), x.X.Type())
	case *ssa.Lookup:
		m, k := s.eval(f, x.X), s.eval(f, x.Index)
		if str, ok := m.(*Str); ok {
			return s.index(str, s.intv(k))
		}
		v, found := s.lookup(m, k)
		if v == nil {
			v = zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return &TupleV{[]Val{v, BoolV(found)}}
		}
		return v
	case *ssa.Slice:
		return s.slice(f, x)
	case *ssa.MakeMap:
		return MapV{s.alloc(x.Type(), &MapC{})}
	case *ssa.MakeSlice:
		n, c := s.intv(s.eval(f, x.Len)), s.intv(s.eval(f, x.Cap))
		if !s.cmp(token.GEQ, n, con(0)) || !s.cmp(token.GEQ, c, n) {
			s.violate("panic", "makeslice: len out of range")
		}
		s.reserve(c)
		et := x.Type().Underlying().(*types.Slice).Elem()
		if s.e.anyText && isByteType(et) && n.eq(con(0)) && !c.isConst() {
			c = n // the room only matters for speed
		}
		return s.makeSlice(et, n, c)
	case *ssa.MakeClosure:
		var b []Val
		for _, y := range x.Bindings {
			b = append(b, s.eval(f, y))
		}
		return &FuncV{x.Fn.(*ssa.Function), b}
	case *ssa.Range:
		return s.rangeOf(s.eval(f, x.X))
	case *ssa.Next:
		return s.nextV(f, x)
	case *ssa.SliceToArrayPointer:
		sl := s.eval(f, x.X)
		if a, ok := sl.(*SliceV); ok && a.off.isConst() && a.off.c == 0 {
			return PtrV{a.obj, ""}
		}
	}
	s.undecided("%T in %s", v, f.fn)
	return nil
}

// taint propagates left-overs through operations whose result is not interpreted.
func (s *State) taint(what string, vs ...Val) Val {
	for _, v := range vs {
		if x, ok := v.(StaleV); ok {
			return x
		}
	}
	for _, v := range vs {
		if x, ok := v.(UnkV); ok {
			return x
		}
	}
	var k []string
	for _, v := range vs {
		k = append(k, valKey(v))
	}
	s.undecided("%s of %s in %s", what, strings.Join(k, ", "), s.top().fn)
	return nil
}

func (s *State) intv(v Val) *Lin {
	switch x := v.(type) {
	case *Lin:
		return x
	case StaleV:
		s.violate("history", "an index or length depends on %s, a leftover of an earlier call", x.name)
	}
	s.undecided("integer %s in %s", valKey(v), s.top().fn)
	return nil
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// share is a string on the bytes of a slice, without a copy.
func (s *State) share(x *SliceV) Val {
	o := s.obj(x.obj)
	r := s.bytesOf(x)
	switch {
	case o.input:
		s.note("alias", "a string shares the caller's input buffer in %s", s.top().fn)
	case o.pre != "":
		s.note("alias", "a string shares %s in %s", o.pre, s.top().fn)
	}
	n := *o
	n.froze = true
	s.heap[x.obj] = &n
	return r
}

func (s *State) makeSlice(et types.Type, n, c *Lin) Val {
	if isByteType(et) {
		x := &Str{}
		x.push(Part{kind: 'Z', a: c})
		return &SliceV{s.alloc(types.NewSlice(et), x), con(0), n, c}
	}
	if !c.isConst() || c.c > 5000 {
		if !n.isConst() {
			s.undecided("slice of symbolic length")
		}
		c = n
	}
	l := &ListC{}
	for i := int64(0); i < c.c; i++ {
		l.e = append(l.e, zero(et))
	}
	return &SliceV{s.alloc(types.NewSlice(et), l), con(0), n, c}
}

// content returns the bytes a []byte refers to.
func (s *State) bytesOf(v Val) *Str {
	switch x := v.(type) {
	case *Str:
		return x
	case NilV:
		return emptyStr
	case *SliceV:
		o := s.obj(x.obj)
		s.checkAccess(o, PtrV{x.obj, ""}, false)
		c, ok := o.val.(*Str)
		if !ok {
			return s.taintStr(o.val)
		}
		if x.isWhole() {
			return c
		}
		if len(c.p) == 1 && c.p[0].kind == 'S' {
			a := s.canonLin(c.p[0].a.add(x.off, 1))
			b := s.canonLin(c.p[0].a.add(x.off, 1).add(x.len, 1))
			r := &Str{}
			if s.norm(b.sub(a)).eq(con(0)) {
				return r
			}
			r.push(Part{kind: 'S', s: c.p[0].s, a: a, b: b})
			return r
		}
		return s.sliceStr(c, x.off, x.off.add(x.len, 1))
	}
	return s.taintStr(v)
}

func (s *State) taintStr(v Val) *Str {
	if x, ok := v.(StaleV); ok {
		return &Str{p: []Part{{kind: 'T', term: x}}}
	}
	s.undecided("bytes of %s in %s", valKey(v), s.top().fn)
	return nil
}

func isBytes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isByteType(sl.Elem())
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (s *State) convert(v Val, from, to types.Type) Val {
	if _, ok := v.(StaleV); ok {
		return v
	}
	if _, ok := v.(UnkV); ok {
		return v
	}
	switch {
	case isInt(from) && isInt(to):
		if y, c, ok := s.intv(v).single(); ok && c == 0 && y.kind == 'N' && (y.name == "NBIG" || y.name == "NBAD") && isUnsigned(from) && !isUnsigned(to) {
			return symLin(globalTab.named(y.name+" as int", minInt, maxInt))
		}
		return s.wrap(s.intv(v), to)
	case isBytes(from) && isString(to):
		return s.bytesOf(v)
	case isString(from) && isBytes(to):
		x := v.(*Str)
		n := s.strLen(x)
		return &SliceV{s.alloc(to, x), con(0), n, n}
	case isString(from) && isString(to):
		return v
	case isInt(from) && isString(to):
		l := s.intv(v)
		if l.isConst() {
			return lit(string(rune(l.c)))
		}
		if lo, hi := s.interval(s.norm(l)); lo >= 0 && hi < 128 {
			return &Str{p: []Part{{kind: 'B', a: l}}}
		}
	case types.Identical(from.Underlying(), to.Underlying()):
		return v
	}
	if isUnsafePtr(to) || isUnsafePtr(from) {
		switch v.(type) {
		case PtrV, *ElemV, NilV:
			return v
		}
	}
	s.undecided("conversion of %s to %s in %s", typeName(from), typeName(to), s.top().fn)
	return nil
}

func (s *State) typeAssert(x *ssa.TypeAssert, v Val) Val {
	ok := false
	var r Val
	switch i := v.(type) {
	case NilV:
	case *IfaceV:
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			if i.typ == errTyp {
				it := x.AssertedType.Underlying().(*types.Interface)
				ok = it.NumMethods() == 0 || it.NumMethods() == 1 && it.Method(0).Name() == "Error"
			} else {
				ok = types.Implements(i.typ, x.AssertedType.Underlying().(*types.Interface))
			}
			r = i
		} else {
			ok = types.Identical(i.typ, x.AssertedType)
			r = i.val
		}
	default:
		return s.taint("type assertion", v)
	}
	if !ok {
		if !x.CommaOk {
			s.violate("panic", "type assertion to %s fails in %s", typeName(x.AssertedType), s.top().fn)
		}
		r = zero(x.AssertedType)
	}
	if x.CommaOk {
		return &TupleV{[]Val{r, BoolV(ok)}}
	}
	return r
}

// fitByte checks a pair of states inside the bounds 0 <= i < n.
func (s *State) inBounds(i, n *Lin, what string) {
	s.e.oblig["bounds"]++
	if !s.cmp(token.GEQ, i, con(0)) || !s.cmp(token.LSS, i, n) {
		s.violate("panic", "%s out of range in %s", what, s.top().fn)
	}
}

func (s *State) index(v Val, i *Lin) Val {
	switch x := v.(type) {
	case *Str:
		if i.isConst() {
			if l, ok := x.isLit(); ok && i.c >= 0 && i.c < int64(len(l)) {
				return con(int64(l[i.c]))
			}
		}
		if l, ok := x.isLit(); ok && !i.isConst() {
			a := &ArrayV{}
			for k := 0; k < len(l); k++ {
				a.e = append(a.e, con(int64(l[k])))
			}
			return s.index(a, i)
		}
		s.inBounds(i, s.strLen(x), "index")
		if len(x.p) == 1 && x.p[0].kind == 'S' {
			return s.readByte(x.p[0].s, x.p[0].a.add(i, 1))
		}
		return s.indexStr(x, i)
	case *ArrayV:
		s.inBounds(i, con(int64(len(x.e))), "index")
		return s.pick(x.e, i)
	}
	return s.taint("index", v, i)
}

// pick selects an element by a possibly symbolic index (known to be inside).
func (s *State) pick(e []Val, i *Lin) Val {
	if i.isConst() {
		return e[i.c]
	}
	s.splitByteBy(i, func(c int64) string {
		if c < 0 || c >= int64(len(e)) {
			return "?"
		}
		return valKey(e[c])
	})
	// after splitting all remaining indexes give the same element
	if y, ev := s.byteOnly(i); y != nil {
		set := s.setOf(y)
		for c := 0; c < 256; c++ {
			if set.has(c) {
				if k, ok := ev(int64(c)); ok && k >= 0 && k < int64(len(e)) {
					return e[k]
				}
			}
		}
	}
	lo, hi := s.interval(s.norm(i))
	if lo < 0 {
		lo = 0
	}
	if hi >= int64(len(e)) {
		hi = int64(len(e)) - 1
	}
	for k := lo; k < hi; k++ {
		if s.cmp(token.EQL, i, con(k)) {
			return e[k]
		}
	}
	return e[hi]
}

// splitByteBy forks so that a function of a single byte has one value.
func (s *State) splitByteBy(l *Lin, class func(int64) string) {
	y, ev := s.byteOnly(l)
	if y == nil {
		return
	}
	set := s.setOf(y)
	groups := map[string]*ByteSet{}
	var order []string
	for c := 0; c < 256; c++ {
		if set.has(c) {
			k := "?"
			if v, ok := ev(int64(c)); ok {
				k = class(v)
			}
			if groups[k] == nil {
				groups[k] = &ByteSet{}
				order = append(order, k)
			}
			groups[k].add(c)
		}
	}
	if len(order) < 2 {
		return
	}
	var alts []func(*State)
	for _, k := range order {
		b := *groups[k]
		alts = append(alts, func(n *State) { n.narrow(y, b) })
	}
	fork(alts...)
}

// byteOnly recognises integers that are a function of one byte symbol.
func (s *State) byteOnly(l *Lin) (*Sym, func(int64) (int64, bool)) {
	var y *Sym
	ok := true
	var scan func(v Val)
	scan = func(v Val) {
		switch x := v.(type) {
		case *Lin:
			for _, t := range x.t {
				switch t.y.kind {
				case 'B':
					if y != nil && y != t.y {
						ok = false
					}
					y = t.y
				case 'T':
					switch t.y.term.op {
					case "and", "or", "xor", "andnot", "shl", "shr", "div", "mod", "wrap256", "wrap65536", "wrap4294967296":
						for _, a := range t.y.term.args {
							scan(a)
						}
					default:
						ok = false
					}
				default:
					ok = false
				}
			}
		default:
			ok = false
		}
	}
	scan(l)
	if !ok || y == nil {
		return nil, nil
	}
	var ev func(v *Lin, c int64) (int64, bool)
	ev = func(v *Lin, c int64) (int64, bool) {
		r := v.c
		for _, t := range v.t {
			var a int64
			if t.y.kind == 'B' {
				a = c
			} else {
				x, ok1 := ev(t.y.term.args[0].(*Lin), c)
				z, ok2 := ev(t.y.term.args[1].(*Lin), c)
				if !ok1 || !ok2 {
					return 0, false
				}
				switch t.y.term.op {
				case "and":
					a = x & z
				case "or":
					a = x | z
				case "xor":
					a = x ^ z
				case "andnot":
					a = x &^ z
				case "shl":
					if z < 0 || z > 40 || x > 1<<20 {
						return 0, false
					}
					a = x << uint(z)
				case "shr":
					if z < 0 {
						return 0, false
					}
					if z > 63 {
						z = 63
					}
					a = x >> uint(z)
				case "div":
					if z == 0 {
						return 0, false
					}
					a = x / z
				case "mod":
					if z == 0 {
						return 0, false
					}
					a = x % z
				default: // wrapN
					n, _ := strconv.ParseInt(t.y.term.op[4:], 10, 64)
					a = (x-z)%n + z
					if a < z {
						a += n
					}
				}
			}
			r += t.k * a
		}
		return r, true
	}
	return y, func(c int64) (int64, bool) { return ev(l, c) }
}

func (s *State) indexAddr(v Val, i *Lin, t types.Type) Val {
	switch x := v.(type) {
	case *SliceV:
		x = s.known(x)
		s.inBounds(i, x.len, "index")
		return s.elemPtr(x.obj, "", x.off.add(i, 1))
	case PtrV:
		a := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		s.inBounds(i, con(a.Len()), "index")
		return s.elemPtr(x.obj, x.path, i)
	case NilV:
		if _, ok := t.Underlying().(*types.Slice); ok {
			s.violate("panic", "index of a nil slice in %s", s.top().fn)
		}
		s.violate("panic", "nil array pointer in %s", s.top().fn)
	}
	return s.taint("element address", v)
}

// ElemV is the address of a byte (or table element) at a symbolic index.
type ElemV struct {
	obj  int
	path string
	at   *Lin
}

func (s *State) elemPtr(obj int, path string, i *Lin) Val {
	if i.isConst() {
		return PtrV{obj, path + "/" + strconv.FormatInt(i.c, 10)}
	}
	return &ElemV{obj, path, i}
}

func (s *State) slice(f *Frame, x *ssa.Slice) Val {
	v := s.eval(f, x.X)
	get := func(y ssa.Value) *Lin {
		if y == nil {
			return nil
		}
		return s.intv(s.eval(f, y))
	}
	lo, hi, max := get(x.Low), get(x.High), get(x.Max)
	if st, ok := v.(StaleV); ok {
		// an emptied left-over: its array may be used again
		if t, ok := x.X.Type().Underlying().(*types.Slice); ok && (lo == nil || lo.eq(con(0))) && hi != nil && hi.eq(con(0)) && max == nil {
			c := symLin(globalTab.named("leftover capacity of "+st.name, 0, 1<<40))
			var val Val = &Str{}
			if !isByteType(t.Elem()) {
				val = &ListC{}
			}
			id := s.alloc(x.X.Type(), val)
			s.obj(id).pre = "memory reused by later calls (" + st.name + ")"
			return &SliceV{id, con(0), con(0), c}
		}
		return st
	}
	if lo == nil {
		lo = con(0)
	}
	chk := func(n *Lin) {
		s.e.oblig["bounds"]++
		if !s.cmp(token.GEQ, lo, con(0)) || !s.cmp(token.LEQ, lo, hi) || !s.cmp(token.LEQ, hi, n) {
			s.violate("panic", "slice bounds out of range in %s", s.top().fn)
		}
	}
	switch a := v.(type) {
	case *Str:
		n := s.strLen(a)
		if hi == nil {
			hi = n
		}
		chk(n)
		if len(a.p) == 1 && a.p[0].kind == 'S' {
			r := &Str{}
			p, q := s.canonLin(a.p[0].a.add(lo, 1)), s.canonLin(a.p[0].a.add(hi, 1))
			if s.norm(q.sub(p)).eq(con(0)) {
				return r
			}
			r.push(Part{kind: 'S', s: a.p[0].s, a: p, b: q})
			return r
		}
		return s.sliceStr(a, lo, hi)
	case *SliceV:
		a = s.known(a)
		if l, ok := s.obj(a.obj).val.(*ListC); ok && l.tok != nil && a.len.isConst() && a.len.c == -1 {
			// a list of unknown length: the whole of it, or nothing of it
			n := s.intv(s.lenOf(a))
			if hi == nil {
				hi = n
			}
			chk(n)
			switch {
			case max != nil:
			case s.norm(lo).eq(con(0)) && s.norm(hi.sub(n)).eq(con(0)):
				return a
			case s.norm(hi).eq(con(0)):
				// what is appended may overwrite the list
				s.setVal(a.obj, StaleV{"memory that an append may have used"})
				return &SliceV{s.alloc(x.X.Type(), &ListC{}), con(0), con(0), con(0)}
			}
			s.undecided("part of a list of unknown length in %s", s.top().fn)
		}
		if hi == nil {
			hi = a.len
		}
		if max == nil {
			max = a.cap
		}
		if _, most := s.interval(s.norm(hi.sub(a.len))); most <= 0 { // not more than the length, which is not more than the capacity
			chk(a.len)
		} else {
			chk(a.cap)
		}
		if x.Max != nil && (!s.cmp(token.LEQ, hi, max) || !s.cmp(token.LEQ, max, a.cap)) {
			s.violate("panic", "slice bounds out of range in %s", s.top().fn)
		}
		return &SliceV{a.obj, s.canonLin(a.off.add(lo, 1)), s.normLen(hi.sub(lo)), s.normLen(max.sub(lo))}
	case NilV:
		if hi == nil {
			hi = con(0)
		}
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			s.violate("panic", "slice of a nil %s in %s", typeName(pt), s.top().fn)
		}
		chk(con(0))
		return v
	case PtrV: // array pointer
		arr := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if a.path != "" {
			s.undecided("slice of an array inside a structure")
		}
		n := con(arr.Len())
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		chk(n)
		return &SliceV{a.obj, lo, hi.sub(lo), max.sub(lo)}
	case StaleV:
		// only the emptied buffer is independent of the past
		if hi != nil && hi.eq(con(0)) {
			et := x.X.Type().Underlying().(*types.Slice).Elem()
			if isByteType(et) {
				return &SliceV{s.alloc(x.Type(), emptyStr), con(0), con(0), con(0)}
			}
			return &SliceV{s.alloc(x.Type(), &ListC{}), con(0), con(0), con(0)}
		}
		return a
	}
	return s.taint("slice", v)
}

func (s *State) normLen(l *Lin) *Lin {
	if n := s.norm(l); len(n.t) < len(l.t) {
		return n
	}
	return l
}

// binary operators ------------------------------------------------------------

func (s *State) binop(op token.Token, a, b Val, t, opt types.Type) Val {
	switch op {
	case token.EQL:
		return BoolV(s.equal(a, b))
	case token.NEQ:
		return BoolV(!s.equal(a, b))
	}
	if la, ok := a.(*Lin); ok {
		lb, ok := b.(*Lin)
		if !ok {
			return s.taint("operator "+op.String(), a, b)
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return BoolV(s.cmp(op, la, lb))
		}
		return s.arith(op, la, lb, t)
	}
	if sa, ok := a.(*Str); ok {
		sb, ok := b.(*Str)
		if !ok {
			return s.taint("operator "+op.String(), a, b)
		}
		switch op {
		case token.ADD:
			return concat(sa, sb)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			x, ok1 := sa.isLit()
			y, ok2 := sb.isLit()
			if ok1 && ok2 {
				return BoolV(opHolds(op, int64(strings.Compare(x, y))))
			}
			switch op {
			case token.LSS:
				return BoolV(s.strLess(sa, sb))
			case token.GTR:
				return BoolV(s.strLess(sb, sa))
			case token.LEQ:
				return BoolV(!s.strLess(sb, sa))
			case token.GEQ:
				return BoolV(!s.strLess(sa, sb))
			}
		}
	}
	return s.taint("operator "+op.String(), a, b)
}

// strLess decides an (opaque) order of two strings consistently.
func (s *State) strLess(a, b *Str) bool {
	if s.eqStr(a, b) {
		return false
	}
	if a.key() > b.key() {
		return !s.atom(&TermV{op: "strless", args: []Val{b, a}})
	}
	return s.atom(&TermV{op: "strless", args: []Val{a, b}})
}

// remainder recognises x - n*(x div n).
func remainder(l *Lin) *Lin {
	for _, d := range l.t {
		if d.y.kind != 'T' || d.y.term.op != "div" {
			continue
		}
		x, ok := d.y.term.args[0].(*Lin)
		n, ok2 := d.y.term.args[1].(*Lin)
		if !ok || !ok2 || !n.isConst() || n.c <= 0 || d.k%n.c != 0 {
			continue
		}
		k := -d.k / n.c
		r := l.add(symLin(d.y), -d.k).add(x, -k)
		if len(r.t) == len(l.t)-1-len(x.t) {
			return r.add(symLin(globalTab.term(&TermV{op: "mod", args: []Val{x, n}}, 0, n.c-1)), k)
		}
	}
	return l
}

func (s *State) arith(op token.Token, a, b *Lin, t types.Type) Val {
	switch op {
	case token.ADD:
		return s.wrap(a.add(b, 1), t)
	case token.SUB:
		return s.wrap(remainder(a.sub(b)), t)
	case token.MUL:
		if b.isConst() {
			return s.wrap(a.mul(b.c), t)
		}
		if a.isConst() {
			return s.wrap(b.mul(a.c), t)
		}
	case token.QUO, token.REM:
		if b.isConst() && b.c == 0 {
			s.violate("panic", "division by zero")
		}
		if !b.isConst() {
			if s.cmp(token.EQL, b, con(0)) {
				s.violate("panic", "division by zero")
			}
		}
		if a.isConst() && b.isConst() {
			if op == token.QUO {
				return con(a.c / b.c)
			}
			return con(a.c % b.c)
		}
	case token.SHL:
		if b.isConst() && b.c >= 0 && b.c < 40 {
			return s.wrap(a.mul(1<<uint(b.c)), t)
		}
	}
	if a.isConst() && b.isConst() {
		switch op {
		case token.AND:
			return s.wrap(con(a.c&b.c), t)
		case token.OR:
			return s.wrap(con(a.c|b.c), t)
		case token.XOR:
			return s.wrap(con(a.c^b.c), t)
		case token.AND_NOT:
			return s.wrap(con(a.c&^b.c), t)
		case token.SHL:
			if b.c >= 0 && b.c < 62 {
				return s.wrap(con(a.c<<uint(b.c)), t)
			}
		case token.SHR:
			if b.c >= 0 {
				n := b.c
				if n > 63 {
					n = 63
				}
				return s.wrap(con(a.c>>uint(n)), t)
			}
		}
	}
	a, b = s.named(a), s.named(b)
	lo, hi := s.interval(s.norm(a))
	name := map[token.Token]string{token.MUL: "mul", token.QUO: "div", token.REM: "mod", token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
	rlo, rhi, _ := typeRange(t)
	// canonical forms on non-negative numbers
	if lo >= 0 && b.isConst() && b.c >= 0 {
		switch op {
		case token.SHR:
			if b.c < 40 {
				name, b = "div", con(1<<uint(b.c))
			}
		case token.AND:
			if b.c > 0 && (b.c+1)&b.c == 0 {
				name, b = "mod", con(b.c+1)
			}
		}
		switch name {
		case "div":
			rlo = lo / b.c
			if hi < maxInt {
				rhi = hi / b.c
			}
			if rlo == rhi {
				return con(rlo)
			}
		case "mod":
			if hi < maxInt && lo/b.c == hi/b.c {
				return a.plus(-b.c * (lo / b.c))
			}
			rlo, rhi = 0, b.c-1
		case "and":
			rlo, rhi = 0, b.c
		case "or", "xor":
			if hi < 256 && b.c < 256 {
				rlo, rhi = 0, 255
			}
		}
	}
	if name == "" {
		s.undecided("operator %s", op)
	}
	return symLin(globalTab.term(&TermV{op: name, args: []Val{a, b}}, rlo, rhi))
}

func (s *State) equal(a, b Val) bool {
	for _, v := range []Val{a, b} {
		if x, ok := v.(StaleV); ok {
			s.note("history", "comparison with %s, a leftover of an earlier call", x.name)
			return s.atom(&TermV{op: "leftover", args: []Val{lit(x.name + " compared")}})
		}
	}
	switch x := a.(type) {
	case *Lin:
		if y, ok := b.(*Lin); ok {
			return s.cmp(token.EQL, x, y)
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			return s.eqStr(x, y)
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			return x == y
		}
		if y, ok := b.(*TermV); ok {
			return s.truth(y) == bool(x)
		}
	case NilV:
		return s.isNil(b)
	case PtrV:
		if y, ok := b.(PtrV); ok {
			return x == y
		}
	case *TermV:
		if y, ok := b.(*TermV); ok && valKey(x) == valKey(y) {
			return true
		}
		if y, ok := b.(*TermV); ok && x.op == "err" && y.op == "err" && len(x.args)+len(y.args) > 2 {
			return false // different package variables, or one and an error made by a call
		}
		if y, ok := b.(BoolV); ok {
			return s.truth(x) == bool(y)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.typ != y.typ && !types.Identical(x.typ, y.typ) {
				return false
			}
			return s.equal(x.val, y.val)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			for i := range x.f {
				if !s.equal(x.f[i], y.f[i]) {
					return false
				}
			}
			return true
		}
	}
	if _, ok := b.(NilV); ok {
		return s.isNil(a)
	}
	s.undecided("comparison of %s and %s in %s", valKey(a), valKey(b), s.top().fn)
	return false
}

func (s *State) isNil(v Val) bool {
	switch x := v.(type) {
	case NilV:
		return true
	case PtrV, *SliceV, MapV, *FuncV, *IfaceV, BuiltinV, OpaqueFn, *modelFn, *ElemV:
		return false
	case UnkV:
		if x.nonnil {
			return false
		}
	case *TermV:
		if x.nonnil {
			return false
		}
		return s.atom(&TermV{op: "isnil", args: []Val{x}})
	}
	s.undecided("nil test of %s", valKey(v))
	return false
}

// maps -------------------------------------------------------------------------

func (s *State) mapObj(m Val, write bool) (int, *MapC) {
	mv, ok := m.(MapV)
	if !ok {
		if x, ok := m.(StaleV); ok {
			s.violate("history", "use of %s, a leftover of an earlier call", x.name)
		}
		s.undecided("map %s in %s", valKey(m), s.top().fn)
	}
	o := s.obj(mv.obj)
	s.checkAccess(o, PtrV{mv.obj, ""}, write)
	c, ok := o.val.(*MapC)
	if !ok {
		s.undecided("map content %s", valKey(o.val))
	}
	return mv.obj, c
}

func (s *State) keyEq(a, b Val) bool {
	switch x := a.(type) {
	case *Str:
		if y, ok := b.(*Str); ok {
			return s.eqStr(x, y)
		}
	case *Lin:
		if y, ok := b.(*Lin); ok {
			return s.cmp(token.EQL, x, y)
		}
	}
	return s.equal(a, b)
}

// lookup gives the value stored under k, or nil.
func (s *State) lookup(m, k Val) (Val, bool) {
	if _, ok := m.(NilV); ok {
		return nil, false
	}
	_, c := s.mapObj(m, false)
	// cheap exact matches of constant keys
	for i := len(c.ops) - 1; i >= 0; i-- {
		o := c.ops[i]
		if s.keyEq(o.key, k) {
			if o.del {
				return nil, false
			}
			return o.val, true
		}
	}
	if c.tok == nil {
		return nil, false
	}
	has, v := s.e.tokLookup(s, c.tok, k)
	return v, has
}

func (s *State) mapUpdate(m, k, v Val) {
	if _, ok := m.(NilV); ok {
		s.violate("panic", "assignment to an entry of a nil map in %s", s.top().fn)
	}
	id, c := s.mapObj(m, true)
	for _, x := range []Val{k, v} {
		if y, ok := x.(StaleV); ok {
			s.violate("history", "a map entry depends on %s, a leftover of an earlier call", y.name)
		}
	}
	s.setVal(id, s.mapPut(c, k, v))
}

// mapPut adds or replaces an entry, keeping the operations canonical.
func (s *State) mapPut(c *MapC, k, v Val) *MapC {
	n := &MapC{tok: c.tok}
	replaced := false
	for _, o := range c.ops {
		if s.keyEq(o.key, k) {
			replaced = true
			if c.tok == nil {
				n.ops = append(n.ops, mapOp{key: o.key, val: v})
			}
			continue
		}
		n.ops = append(n.ops, o)
	}
	if !replaced || c.tok != nil {
		n.ops = append(n.ops, mapOp{key: k, val: v})
	}
	return n
}

func (s *State) mapDelete(m, k Val) {
	if _, ok := m.(NilV); ok {
		return
	}
	id, c := s.mapObj(m, true)
	n := &MapC{tok: c.tok}
	for _, o := range c.ops {
		if !s.keyEq(o.key, k) {
			n.ops = append(n.ops, o)
		}
	}
	if c.tok != nil && !s.e.tokLacks(s, c.tok, k) {
		n.ops = append(n.ops, mapOp{del: true, key: k})
	}
	s.setVal(id, n)
}

func (s *State) rangeOf(v Val) Val {
	switch x := v.(type) {
	case *Str:
		return &IterV{str: x, at: con(0)}
	case NilV:
		return &IterV{}
	case MapV:
		_, c := s.mapObj(x, false)
		if c.tok != nil {
			s.undecided("iteration over an abstract map in %s", s.top().fn)
		}
		s.flags["mapiter"] = BoolV(true)
		it := &IterV{m: x.obj}
		for _, o := range c.ops {
			it.list = append(it.list, o.key)
		}
		return s.e.mapOrder(s, it)
	}
	return s.taint("range", v)
}

func (s *State) nextV(f *Frame, x *ssa.Next) Val {
	v := s.eval(f, x.Iter)
	it, ok := v.(*IterV)
	if !ok {
		return s.taint("next", v)
	}
	tt := x.Type().(*types.Tuple)
	zk, zv := zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())
	if x.IsString {
		if !s.cmp(token.LSS, it.at, s.strLen(it.str)) {
			return &TupleV{[]Val{BoolV(false), con(0), con(0)}}
		}
		b := s.index(it.str, it.at).(*Lin)
		if !s.cmp(token.LSS, b, con(128)) {
			s.undecided("iteration over non-ASCII runes in %s", f.fn)
		}
		f.regs[x.Iter] = &IterV{str: it.str, at: s.canonLin(it.at.plus(1))}
		return &TupleV{[]Val{BoolV(true), it.at, b}}
	}
	if it.i >= len(it.list) {
		return &TupleV{[]Val{BoolV(false), zk, zv}}
	}
	k := it.list[it.i]
	val, found := s.lookup(MapV{it.m}, k)
	n := *it
	n.i++
	f.regs[x.Iter] = &n
	if !found {
		s.undecided("map changed during iteration")
	}
	return &TupleV{[]Val{BoolV(true), k, val}}
}

func zeroOrNil(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return NilV{}
	}
	return zero(t)
}

// builtins ---------------------------------------------------------------------

func (s *State) builtin(name string, args []Val, cc *ssa.CallCommon) Val {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return s.normLen(s.strLen(x))
		case *SliceV:
			return s.lenOf(x)
		case NilV:
			return con(0)
		case *ArrayV:
			return con(int64(len(x.e)))
		case MapV:
			_, c := s.mapObj(x, false)
			return s.mapLen(c)
		}
		return s.taint("len", args[0])
	case "cap":
		switch x := args[0].(type) {
		case *SliceV:
			return s.known(x).cap
		case NilV:
			return con(0)
		}
		return s.taint("cap", args[0])
	case "append":
		return s.appendV(args[0], args[1], cc.Args[0].Type())
	case "copy":
		return s.copyV(args[0], args[1])
	case "SliceData":
		return args[0]
	case "String":
		n := s.intv(args[1])
		switch x := args[0].(type) {
		case *SliceV:
			return s.share(&SliceV{x.obj, x.off, n, n})
		case *ElemV:
			if x.path == "" {
				return s.share(&SliceV{x.obj, x.at, n, n})
			}
		case NilV:
			return &Str{}
		}
	case "delete":
		s.mapDelete(args[0], args[1])
		return nil
	case "panic":
		s.violate("panic", "explicit panic in %s", s.top().fn)
	case "print", "println":
		s.violate("effect", "prints in %s", s.top().fn)
	case "min", "max":
		r := s.intv(args[0])
		for _, a := range args[1:] {
			l := s.intv(a)
			if s.cmp(token.LSS, l, r) == (name == "min") {
				r = l
			}
		}
		return r
	case "recover":
		return NilV{}
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			id, _ := s.mapObj(x, true)
			s.setVal(id, &MapC{})
			return nil
		case NilV:
			return nil
		}
	case "ssa:wrapnilchk":
		if _, ok := args[0].(NilV); ok {
			s.violate("panic", "nil receiver")
		}
		return args[0]
	}
	s.undecided("builtin %s in %s", name, s.top().fn)
	return nil
}

// isWhole marks a slice over the whole of a byte array of symbolic content, or of an abstract list.
func (x *SliceV) isWhole() bool { return x.len.isConst() && x.len.c == -1 }

// known gives a slice over a whole byte array its length.
func (s *State) known(x *SliceV) *SliceV {
	if x.isWhole() {
		if c, ok := s.obj(x.obj).val.(*Str); ok {
			n := s.strLen(c)
			return &SliceV{x.obj, x.off, n, n}
		}
	}
	return x
}

// lenOf is the length of a slice; abstract lists have an opaque length.
func (s *State) lenOf(x *SliceV) Val {
	x = s.known(x)
	if x.len.isConst() && x.len.c == -1 {
		if l, ok := s.obj(x.obj).val.(*ListC); ok && l.tok != nil {
			return symLin(globalTab.term(&TermV{op: "toklen", args: []Val{l.tok}}, 1, 1<<40)).plus(int64(len(l.e)))
		}
		s.undecided("length of an abstract list")
	}
	return s.normLen(x.len)
}

func (s *State) mapLen(c *MapC) *Lin {
	if c.tok == nil {
		n := 0
		for _, o := range c.ops {
			if !o.del {
				n++
			}
		}
		return con(int64(n))
	}
	return s.e.tokLen(s, c)
}

func (s *State) listSlice(l *ListC, et types.Type) *SliceV {
	n := con(int64(len(l.e)))
	if l.tok != nil {
		n = con(-1)
	}
	return &SliceV{s.alloc(types.NewSlice(et), l), con(0), n, n}
}

func (s *State) appendV(a, b Val, t types.Type) Val {
	st, ok := t.Underlying().(*types.Slice)
	if !ok {
		s.undecided("append to %s", t)
	}
	if isByteType(st.Elem()) {
		add := s.bytesOf(b)
		if x, ok := a.(StaleV); ok {
			return x
		}
		if len(add.p) == 0 {
			return a
		}
		if x, ok := a.(*SliceV); ok {
			o := s.obj(x.obj)
			c, ok := o.val.(*Str)
			if !ok {
				return s.taint("append", o.val)
			}
			if x.isWhole() {
				return &SliceV{s.alloc(o.typ, concat(c, add)), x.off, x.len, x.cap}
			}
			n := s.strLen(add)
			newLen := x.len.add(n, 1)
			if o.input {
				if s.cmp(token.LEQ, newLen, x.cap) {
					s.violate("alias", "append writes into the caller's input buffer in %s", s.top().fn)
				}
				s.violate("alias", "append may write behind the caller's input buffer in %s", s.top().fn)
			}
			end := s.canonLin(x.off.add(x.len, 1))
			// in place when the backing array is known to be large enough
			total := s.strLen(c)
			if s.norm(end.sub(total)).eq(con(0)) {
				// at the end of the known content: the array may or may not be reallocated
				nc := concat(c, add)
				id := s.alloc(o.typ, nc)
				if x.cap != nil && !s.norm(x.cap.sub(x.len)).eq(con(0)) {
					s.checkAccess(o, PtrV{x.obj, ""}, true)
					if o.grown {
						s.undecided("a second append to the same part of an array in %s", s.top().fn)
					}
					g := *o
					g.grown = true
					s.heap[x.obj] = &g
					// the result may still be the old array
					s.obj(id).pre, s.obj(id).lock = o.pre, o.lock
				}
				if s.e.anyText && x.off.eq(con(0)) {
					return &SliceV{id, x.off, con(-1), con(-1)}
				}
				return &SliceV{id, x.off, s.normLen(newLen), s.normLen(newLen)}
			}
			if s.e.hooks != nil {
				// in place or not, as the capacity will have it: what was behind the slice is not to be used any more
				s.checkAccess(o, PtrV{x.obj, ""}, true)
				l, _ := s.cut(c, end)
				_, keep := s.cut(l, x.off)
				s.setVal(x.obj, concat(l, &Str{p: []Part{{kind: 'T', term: StaleV{"memory that an append may have used"}}}}))
				return &SliceV{s.alloc(o.typ, concat(keep, add)), con(0), con(-1), con(-1)}
			}
			if s.cmp(token.LEQ, end.add(n, 1), total) {
				s.checkAccess(o, PtrV{x.obj, ""}, true)
				l, r := s.cut(c, end)
				_, r = s.cut(r, n)
				s.setVal(x.obj, concat(l, add, r))
				return &SliceV{x.obj, x.off, s.normLen(newLen), x.cap}
			}
			l := s.sliceStr(c, x.off, end)
			nc := concat(l, add)
			m := s.strLen(nc)
			return &SliceV{s.alloc(o.typ, nc), con(0), m, m}
		}
		n := s.strLen(add)
		return &SliceV{s.alloc(t, add), con(0), n, n}
	}
	// other element types
	get := func(v Val) *ListC {
		switch x := v.(type) {
		case NilV:
			return &ListC{}
		case *SliceV:
			o := s.obj(x.obj)
			s.checkAccess(o, PtrV{x.obj, ""}, false)
			l, ok := o.val.(*ListC)
			if !ok {
				s.taint("append", o.val)
				s.undecided("append of %s", valKey(o.val))
			}
			if l.tok != nil {
				if !x.off.eq(con(0)) {
					s.undecided("append to a part of an abstract list")
				}
				return l
			}
			if !x.off.isConst() || !x.len.isConst() {
				s.undecided("append to a list of symbolic length")
			}
			return &ListC{e: l.e[x.off.c : x.off.c+x.len.c]}
		case StaleV:
			s.violate("history", "appends to %s, a leftover of an earlier call", x.name)
		}
		s.undecided("append of %s", valKey(v))
		return nil
	}
	x, y := get(a), get(b)
	if y.tok != nil {
		s.undecided("append of an abstract list")
	}
	if len(y.e) == 0 {
		return a
	}
	n := &ListC{tok: x.tok, e: append(append([]Val(nil), x.e...), y.e...)}
	return s.listSlice(n, st.Elem())
}

func (s *State) copyV(dst, src Val) Val {
	d, ok := dst.(*SliceV)
	if !ok {
		if _, ok := dst.(NilV); ok {
			return con(0)
		}
		return s.taint("copy", dst)
	}
	o := s.obj(d.obj)
	c, ok := o.val.(*Str)
	if !ok {
		if l, ok := o.val.(*ListC); ok && l.tok == nil {
			if sv, ok := src.(*SliceV); ok {
				if sl, ok := s.obj(sv.obj).val.(*ListC); ok && sl.tok == nil && d.len.isConst() && sv.len.isConst() && d.off.isConst() && sv.off.isConst() {
					n := append([]Val(nil), l.e...)
					k := copy(n[d.off.c:d.off.c+d.len.c], append([]Val(nil), sl.e[sv.off.c:sv.off.c+sv.len.c]...))
					s.checkAccess(o, PtrV{d.obj, ""}, true)
					s.setVal(d.obj, &ListC{e: n})
					return con(int64(k))
				}
			}
			if _, ok := src.(NilV); ok {
				return con(0)
			}
		}
		return s.taint("copy", o.val)
	}
	x := s.bytesOf(src)
	n := s.strLen(x)
	d = s.known(d)
	if !s.cmp(token.LEQ, n, d.len) {
		x = s.sliceStr(x, con(0), d.len)
		n = d.len
	}
	if n.eq(con(0)) {
		return n
	}
	l, r := s.cut(c, d.off)
	_, r = s.cut(r, n)
	nc := concat(l, x, r)
	s.checkAccess(o, PtrV{d.obj, ""}, true)
	s.setVal(d.obj, nc)
	return s.normLen(n)
}

// loadElem reads an element at a symbolic index (known to be inside).
func (s *State) loadElem(el *ElemV) Val {
	o := s.obj(el.obj)
	s.checkAccess(o, PtrV{el.obj, el.path}, false)
	switch c := getPath(o.val, splitPath(el.path)).(type) {
	case *Str:
		if len(c.p) == 1 && c.p[0].kind == 'S' {
			return s.readByte(c.p[0].s, c.p[0].a.add(el.at, 1))
		}
		if _, ok := c.isLit(); ok {
			return s.index(c, el.at)
		}
		return s.indexStr(c, el.at)
	case *ListC:
		if c.tok == nil {
			return s.pick(c.e, el.at)
		}
	case *ArrayV:
		return s.pick(c.e, el.at)
	case StaleV:
		return c
	}
	s.undecided("element of %s", valKey(o.val))
	return nil
}

func (s *State) storeElem(el *ElemV, v Val) {
	o := s.obj(el.obj)
	s.checkAccess(o, PtrV{el.obj, el.path}, true)
	c, ok := o.val.(*Str)
	if !ok || el.path != "" {
		s.undecided("store at a symbolic index")
	}
	n := s.setByte(c, el.at, v)
	s.setVal(el.obj, n)
}

// divMod is the canonical quotient or remainder of a non-negative number by a constant.
func (s *State) divMod(l *Lin, k int64, quo bool) Val {
	op := token.REM
	if quo {
		op = token.QUO
	}
	return s.arith(op, l, con(k), types.Typ[types.Int])
}
