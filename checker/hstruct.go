package main

// Structural rules over the whole repository: effects and package-level state.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// allFuncs lists all functions with a body of the repository's packages, closures included.
func (w *World) allFuncs() []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, rp := range w.repo {
		p := w.pkgs[rp.PkgPath]
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := w.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// rootGlobals finds the package variables whose memory addr may point into (within the function).
func rootGlobals(addr ssa.Value, seen map[ssa.Value]bool, f func(g *ssa.Global)) {
	if seen[addr] {
		return
	}
	seen[addr] = true
	switch x := addr.(type) {
	case *ssa.Global:
		f(x)
	case *ssa.FieldAddr:
		rootGlobals(x.X, seen, f)
	case *ssa.IndexAddr:
		rootGlobals(x.X, seen, f)
	case *ssa.Slice:
		rootGlobals(x.X, seen, f)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			rootGlobals(x.X, seen, f)
		}
	case *ssa.Lookup:
		rootGlobals(x.X, seen, f)
	case *ssa.Field:
		rootGlobals(x.X, seen, f)
	case *ssa.Extract:
		rootGlobals(x.Tuple, seen, f)
	case *ssa.ChangeType:
		rootGlobals(x.X, seen, f)
	case *ssa.Convert:
		rootGlobals(x.X, seen, f)
	case *ssa.TypeAssert:
		rootGlobals(x.X, seen, f)
	case *ssa.Phi:
		for _, e := range x.Edges {
			rootGlobals(e, seen, f)
		}
	}
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

func (w *World) pos(p token.Pos) string {
	q := w.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, w.dir+"/"), q.Line)
}

// globals: after package initialisation no function of the repository changes package-level state.
func (w *World) checkGlobals(r *UnitResult) {
	r.Config = "every function of the repository outside package initialisation"
	for _, f := range w.allFuncs() {
		r.Functions = append(r.Functions, f.String())
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, a := range storeTargets(ins) {
					r.Obligations["store"]++
					rootGlobals(a, map[ssa.Value]bool{}, func(g *ssa.Global) {
						r.Findings = append(r.Findings, UnitFinding{Cat: "global", Msg: fmt.Sprintf("%s changes the package variable %s", f, g), Where: w.pos(ins.Pos())})
					})
				}
			}
		}
	}
}

// effectFree lists packages whose functions have no effect besides those through their arguments.
var effectFree = map[string]bool{
	"errors": true, "strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "sort": true, "slices": true,
	"maps": true, "cmp": true, "math": true, "math/bits": true, "sync": true, "sync/atomic": true, "io": true, "bufio": true, "iter": true,
	"encoding/binary": true, "encoding/hex": true, "container/list": true, "container/heap": true, "unique": true, "internal/bytealg": true, "internal/stringslite": true,
	"hash/fnv": true, "hash/crc32": true, "text/scanner": true, "encoding": true,
}

var fmtFree = map[string]bool{"Errorf": true, "Sprintf": true, "Sprint": true, "Sprintln": true, "Sscanf": true, "Sscan": true, "Sscanln": true,
	"Fprintf": true, "Fprint": true, "Fprintln": true, "Append": true, "Appendf": true, "Appendln": true}

var timeBad = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "AfterFunc": true, "Tick": true, "NewTicker": true,
	"NewTimer": true, "LoadLocation": true, "LoadLocationFromTZData": true, "Local": true}

// effect names the effect of an external function, "" if there is none.
func effect(f *ssa.Function) string {
	p := pkgPath(f)
	switch {
	case effectFree[p]:
		return ""
	case p == "fmt":
		if fmtFree[f.Name()] || f.Signature.Recv() != nil {
			return ""
		}
		return "performs input or output with " + f.String()
	case p == "time":
		if !timeBad[f.Name()] {
			return ""
		}
		return "depends on the clock or the local time zone through " + f.String()
	case p == "":
		return ""
	}
	return "calls " + f.String() + ", which is not known to be free of effects"
}

// effects: nothing reachable from the exported functions (other than the year option) reads the clock, the environment, random
// numbers or the local zone, does input or output, starts goroutines or iterates a map in an order that matters.
func (w *World) checkEffects(r *UnitResult) {
	r.Config = "everything reachable from the exported functions and methods, the current-year option excepted"
	exempt := map[*ssa.Function]bool{}
	if p := w.pkgs[modPath+"/rfc3164"]; p != nil {
		yo, _ := p.Pkg.Scope().Lookup("YearOperator").(*types.TypeName)
		for _, f := range w.allFuncs() {
			if f.Pkg == p && f.Name() == "WithYear" {
				exempt[f] = true
			}
			if yo != nil && f.Signature.Recv() != nil {
				rt := f.Signature.Recv().Type()
				if it, ok := yo.Type().Underlying().(*types.Interface); ok && f.Name() == "Apply" && types.Implements(rt, it) {
					exempt[f] = true
				}
				if pt, ok := rt.(*types.Pointer); ok {
					rt = pt.Elem()
				}
				if st, ok := rt.Underlying().(*types.Struct); ok && st.NumFields() == 1 && types.Identical(st.Field(0).Type(), yo.Type()) {
					exempt[f] = true // the strategy itself
				}
			}
		}
	}
	type item struct {
		f    *ssa.Function
		from *item
	}
	var work []*item
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function, from *item) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		work = append(work, &item{f, from})
	}
	roots := 0
	var last []*ssa.Function // serialization: the units of C16 execute it for all orders of its map iterations
	for _, f := range w.allFuncs() {
		root := f.Parent() == nil && !isInit(f) && !exempt[f] && token.IsExported(f.Name())
		if root {
			// option setters hand out functions, which their callers run: those count as well
			roots++
			if w.isSerialization(f) {
				last = append(last, f)
			} else {
				add(f, nil)
			}
		}
	}
	ordered := false
	path := func(it *item) string {
		var l []string
		for ; it != nil; it = it.from {
			l = append([]string{it.f.String()}, l...)
		}
		return strings.Join(l, " -> ")
	}
	repoFn := func(f *ssa.Function) bool {
		p := pkgPath(f)
		return w.isRepo(p) || strings.HasPrefix(p, "github.com/leodido/ragel-machinery")
	}
	for len(work)+len(last) > 0 {
		if len(work) == 0 {
			for _, f := range last {
				add(f, nil)
			}
			last, ordered = nil, true
			continue
		}
		it := work[0]
		work = work[1:]
		f := it.f
		bad := func(pos token.Pos, msg string, args ...interface{}) {
			r.Findings = append(r.Findings, UnitFinding{Cat: "effect", Msg: fmt.Sprintf(msg, args...) + " (" + path(it) + ")", Where: w.pos(pos)})
		}
		if !repoFn(f) {
			if f.Synthetic != "" || pkgPath(f) == "" { // wrappers, bound methods
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if c, ok := ins.(ssa.CallInstruction); ok {
							add(c.Common().StaticCallee(), it)
						}
					}
				}
				continue
			}
			r.Obligations["external function"]++
			if e := effect(f); e != "" {
				up := it.from
				pos := token.NoPos
				if up != nil {
					pos = up.f.Pos()
				}
				r.Findings = append(r.Findings, UnitFinding{Cat: "effect", Msg: e + " (" + path(it) + ")", Where: w.pos(pos)})
			}
			continue
		}
		r.Functions = append(r.Functions, f.String())
		r.Obligations["function"]++
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Go:
					bad(x.Pos(), "%s starts a goroutine", f)
				case *ssa.Select:
					bad(x.Pos(), "%s selects between channels", f)
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						r.Obligations["map iteration"]++
						if why := w.orderMatters(x); why != "" && (!ordered || strings.HasPrefix(why, listUnsorted)) {
							bad(x.Pos(), "%s iterates over a map and %s", f, why)
						}
					}
				case *ssa.Convert:
					if t, ok := x.X.Type().Underlying().(*types.Basic); ok && t.Kind() == types.UnsafePointer {
						if u, ok := x.Type().Underlying().(*types.Basic); ok && u.Kind() == types.Uintptr {
							bad(x.Pos(), "%s uses a memory address as a number", f)
						}
					}
				}
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					switch g := (*o).(type) {
					case *ssa.Function:
						add(g, it)
					case *ssa.Global:
						n := g.Pkg.Pkg.Path() + "." + g.Name()
						switch {
						case n == "time.Local":
							bad(ins.Pos(), "%s uses the local time zone", f)
						case strings.HasPrefix(n, "os."):
							bad(ins.Pos(), "%s uses %s", f, n)
						}
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range w.implementers(c.Common().Value.Type(), c.Common().Method) {
						add(g, it)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			add(a, it)
		}
	}
	if roots == 0 {
		r.Findings = append(r.Findings, UnitFinding{Cat: "undecided", Msg: "no exported functions found"})
	}
	sort.Strings(r.Functions)
}

// isSerialization says whether f is the String method of the RFC 5424 message.
func (w *World) isSerialization(f *ssa.Function) bool {
	if f.Name() != "String" || f.Signature.Recv() == nil || pkgPath(f) != modPath+"/rfc5424" {
		return false
	}
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "SyslogMessage"
}

// orderMatters says why the order of a map iteration may be visible: the loop may only collect keys or values into a slice that
// is sorted afterwards, or fill another map, or count.
func (w *World) orderMatters(rg *ssa.Range) string {
	// blocks of the loop: those that can reach the Next of this range and are reachable from it
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	// the natural loop of the iteration's head
	loop := map[*ssa.BasicBlock]bool{head: true}
	var back []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back = append(back, p)
		}
	}
	for len(back) > 0 {
		b := back[0]
		back = back[1:]
		if !loop[b] {
			loop[b] = true
			back = append(back, b.Preds...)
		}
	}
	// leaving early shows the order, too
	for b := range loop {
		for _, x := range b.Succs {
			if b != head && !loop[x] {
				return "leaves the iteration early"
			}
		}
	}
	var lists []ssa.Value
	for b := range loop {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.IndexAddr:
					if _, ok := a.X.(*ssa.Alloc); ok { // arguments of append and the like
						continue
					}
					lists = append(lists, a.X)
					continue
				case *ssa.Alloc:
					if _, ok := x.Val.Type().Underlying().(*types.Slice); ok {
						lists = append(lists, x.Val)
						continue
					}
					if !a.Heap {
						continue
					}
				}
				return "stores in iteration order"
			case *ssa.Send:
				return "sends in iteration order"
			case *ssa.Return:
				return "returns from within the iteration"
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						lists = append(lists, x.(ssa.Value))
					}
					continue
				}
				if g := c.StaticCallee(); g != nil && pkgPath(g) == "strings" && g.Signature.Recv() == nil {
					continue
				}
				return "calls " + c.String() + " in iteration order"
			case *ssa.BinOp:
				if t, ok := x.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
					return "concatenates in iteration order"
				}
			}
		}
	}
	if len(lists) == 0 {
		return ""
	}
	return w.unsorted(rg.Parent(), head.Succs, head, lists, loop, map[*ssa.Function]bool{})
}

const listUnsorted = "builds a list that is not sorted"

// unsorted follows the paths from the given blocks of f: each must sort the list (one of vals, or what is derived from it)
// before using it, unless the list has at most one entry. A list that is returned is followed in every caller.
func (w *World) unsorted(f *ssa.Function, from []*ssa.BasicBlock, stop *ssa.BasicBlock, vals []ssa.Value, loop map[*ssa.BasicBlock]bool, seen map[*ssa.Function]bool) string {
	tracked := map[ssa.Value]bool{}
	var track func(v ssa.Value)
	track = func(v ssa.Value) {
		if tracked[v] {
			return
		}
		tracked[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Extract:
				track(x.(ssa.Value))
			case *ssa.Store:
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						track(al)
					}
				}
			case *ssa.UnOp:
				if _, ok := v.(*ssa.Alloc); ok {
					track(x)
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && x.Call.Args[0] == v {
					track(x)
				}
			}
		}
	}
	for _, v := range vals {
		track(v)
	}
	isTracked := func(v ssa.Value) bool { return v != nil && tracked[v] }
	// length of the list?
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && isTracked(c.Call.Args[0])
	}
	returned := false
	done := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), from...)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if done[b] || b == stop || loop[b] {
			continue
		}
		done[b] = true
		sorted := false
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.ChangeType, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Extract, *ssa.If:
				continue
			case *ssa.UnOp:
				if x.Op == token.MUL && isTracked(x) {
					continue
				}
			case *ssa.Slice:
				if isTracked(x) {
					continue
				}
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); ok {
					continue
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if isTracked(v) {
						returned = true
					}
				}
				continue
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				if k := sortedArg(c.StaticCallee()); k >= 0 && k < len(c.Args) && isTracked(c.Args[k]) {
					sorted = true
				}
			}
			if sorted {
				break
			}
			var ops []*ssa.Value
			for _, o := range ins.Operands(ops) {
				if isTracked(*o) {
					return listUnsorted + " on every path to its use"
				}
			}
		}
		if sorted {
			continue
		}
		succs := b.Succs
		if n := len(b.Instrs); n > 0 {
			if i, ok := b.Instrs[n-1].(*ssa.If); ok {
				if c, ok := i.Cond.(*ssa.BinOp); ok {
					x, y, op := c.X, c.Y, c.Op
					if isLen(y) {
						x, y = y, x
						switch op {
						case token.LSS:
							op = token.GTR
						case token.LEQ:
							op = token.GEQ
						case token.GTR:
							op = token.LSS
						case token.GEQ:
							op = token.LEQ
						}
					}
					if k, ok := y.(*ssa.Const); ok && isLen(x) && k.Value != nil {
						n := k.Int64()
						short := -1 // the branch on which the list has at most one entry
						switch {
						case op == token.LSS && n <= 2, op == token.LEQ && n <= 1, op == token.EQL && n <= 1:
							short = 0
						case op == token.GTR && n <= 1, op == token.GEQ && n <= 2, op == token.NEQ && n <= 1:
							short = 1
						}
						if short >= 0 {
							succs = []*ssa.BasicBlock{b.Succs[1-short]}
						}
					}
				}
			}
		}
		work = append(work, succs...)
	}
	if !returned || seen[f] {
		return ""
	}
	seen[f] = true
	for _, g := range w.allFuncs() {
		for _, b := range g.Blocks {
			for i, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || c.Common().StaticCallee() != f {
					continue
				}
				if why := w.unsortedCall(g, b, i, c, seen); why != "" {
					return why
				}
			}
		}
	}
	if token.IsExported(f.Name()) {
		return listUnsorted
	}
	return ""
}

// unsortedCall follows the unsorted list the call at position i of block b returns.
func (w *World) unsortedCall(g *ssa.Function, b *ssa.BasicBlock, i int, c *ssa.Call, seen map[*ssa.Function]bool) string {
	// the rest of the block counts first
	for _, ins := range b.Instrs[i+1:] {
		if x, ok := ins.(ssa.CallInstruction); ok {
			if k := sortedArg(x.Common().StaticCallee()); k >= 0 && k < len(x.Common().Args) && derives(x.Common().Args[k], c) {
				return ""
			}
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.ChangeType, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Extract, *ssa.If, *ssa.Store, *ssa.Alloc, *ssa.UnOp, *ssa.Slice:
			continue
		case *ssa.Return:
			for _, v := range x.Results {
				if derives(v, c) {
					return w.unsorted(g, []*ssa.BasicBlock{b}, nil, []ssa.Value{c}, nil, seen)
				}
			}
			continue
		case ssa.CallInstruction:
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				continue
			}
		}
		var ops []*ssa.Value
		for _, o := range ins.Operands(ops) {
			if derives(*o, c) {
				return listUnsorted + " on every path to its use"
			}
		}
	}
	return w.unsorted(g, b.Succs, b, []ssa.Value{c}, nil, seen)
}

// derives says whether v is the value c, or a conversion or copy of it.
func derives(v, c ssa.Value) bool {
	for n := 0; n < 10 && v != nil; n++ {
		if v == c {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.UnOp:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, u := range *al.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == al && s.Val == c {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// sortedArg tells which argument g sorts: a sorting function of the library, or a function whose entry block hands it to one.
func sortedArg(g *ssa.Function) int {
	if g == nil {
		return -1
	}
	if isSort(g) {
		return 0
	}
	if len(g.Blocks) == 0 {
		return -1
	}
	for _, ins := range g.Blocks[0].Instrs {
		if c, ok := ins.(*ssa.Call); ok && isSort(c.Call.StaticCallee()) && len(c.Call.Args) > 0 {
			for i, p := range g.Params {
				if derives(c.Call.Args[0], p) {
					return i
				}
			}
		}
	}
	return -1
}

// isSort says whether g is a sorting function of the library.
func isSort(g *ssa.Function) bool {
	if g == nil {
		return false
	}
	if g.Origin() != nil {
		g = g.Origin()
	}
	p := pkgPath(g)
	return (p == "sort" || p == "slices") && (strings.HasPrefix(g.Name(), "Sort") || g.Name() == "Strings" || g.Name() == "Slice" || g.Name() == "Stable" || g.Name() == "SliceStable")
}

func init() {
	addUnit("globals", func(w *World, r *UnitResult) { w.checkGlobals(r) })
	addUnit("effects", func(w *World, r *UnitResult) { w.checkEffects(r) })
}
