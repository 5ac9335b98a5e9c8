package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Fn    string
	Name  string
	Kind  string // ensures, requires, safety, frame, inv-entry, inv-kept, decreases, overflow, append, lemma, subset
	Tags  []string
	Hyps  []*Term
	Goal  *Term
	Pos   string
	Cand  string // candidate key: failure only drops the candidate
	Group string // decreases: one candidate of the group must hold
	Res   Result
	Path  []string
	MaxAx int
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type FnRun struct {
	v             *Verifier
	fn            *ssa.Function
	c             *Contract
	key           string
	entry         *State
	vars          map[string]TV
	resTypes      []types.Type
	obls          []*Obl
	frames        int
	quiet         int
	recs          []*modSet
	dropped       map[string]bool
	paths         int
	exits         int
	assume        map[string]bool // unchecked assumptions used
	inlined       map[string]bool
	called        map[string]bool
	groups        map[string]string // loop groups needing a measure
	autoTerm      map[string]bool
	iterSeq       int
	mods          []Mod
	local         map[*ssa.Function]*Contract
	measure0      *Term
	stop          bool
	candKeys      map[string]bool
	evalPureDepth int
	capt          []capture
	localDone     map[string]bool
	localSuffix   string
	inLocal       *Contract
	cover         []*Term
	boxOwn        map[*Term]*Own
	backEdges     map[string]int
	joining       bool
	stops         []*stopPoint
}

type Frame struct {
	joins    map[*ssa.BasicBlock]*ssa.BasicBlock
	id       int
	fn       *ssa.Function
	key      string
	parent   *Frame
	bindings []Val
	ret      func(st *State, res []Val)
	loops    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	depth    int
}

type modSet struct {
	mark    int
	classes map[string]*classMod
	alloc   bool
	iters   map[int]bool
}
type classMod struct {
	whole bool
	refs  map[*Term]bool
}

func newModSet() *modSet { return &modSet{classes: map[string]*classMod{}, iters: map[int]bool{}} }

// merge reports whether m grew
func (m *modSet) merge(o *modSet) bool {
	g := false
	for c, x := range o.classes {
		y := m.classes[c]
		if y == nil {
			y = &classMod{refs: map[*Term]bool{}}
			m.classes[c] = y
			g = true
		}
		if x.whole && !y.whole {
			y.whole = true
			g = true
		}
		for r := range x.refs {
			if !y.refs[r] {
				y.refs[r] = true
				g = true
			}
		}
	}
	if o.alloc && !m.alloc {
		m.alloc = true
		g = true
	}
	for i := range o.iters {
		if !m.iters[i] {
			m.iters[i] = true
			g = true
		}
	}
	return g
}

// newerThan reports whether t mentions a symbol created after mark
func newerThan(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "var" && t.born > mark && !t.old {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (x *FnRun) record(class string, ref *Term) {
	for _, r := range x.recs {
		if ref != nil {
			if id := Rid(ref); true {
				if b, _ := splitConst(id); b != nil && b.op == "var" && strings.HasPrefix(b.name, "alloc!") && b.born > r.mark && b.name != "alloc!0" {
					continue // object created inside the loop
				}
			}
		}
		cm := r.classes[class]
		if cm == nil {
			cm = &classMod{refs: map[*Term]bool{}}
			r.classes[class] = cm
		}
		if ref == nil || newerThan(ref, r.mark) {
			cm.whole = true
		} else {
			cm.refs[ref] = true
		}
	}
}

func (x *FnRun) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.v.prog.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *FnRun) oblige(st *State, kind, name string, tags []string, goal *Term, pos string) *Obl {
	if x.quiet > 0 {
		return nil
	}
	if goal == True && kind != "ensures" && kind != "requires" {
		return nil
	}
	o := &Obl{Fn: x.key, Name: name, Kind: kind, Tags: tags, Hyps: append([]*Term(nil), st.pc...), Goal: goal, Pos: pos, Path: append([]string(nil), st.path...)}
	x.obls = append(x.obls, o)
	return o
}

func (x *FnRun) safety(st *State, what string, cond *Term, pos token.Pos) {
	if cond == True {
		return
	}
	x.oblige(st, "safety", what, []string{"C12"}, cond, x.pos(pos))
	st.assume(cond)
}

// ---- values

func (x *FnRun) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return Val{T: zeroOf(v.Type()), Own: &Own{kind: "nil"}}
		}
		return Val{T: constTerm(v.Value, v.Type())}
	case *ssa.Global:
		t := v.Type().(*types.Pointer).Elem()
		if !x.v.prog.inRepoPkg(v.Pkg) {
			c := globalClass(v)
			if isStructVal(t) {
				unsup("external global %s", v.Name())
			}
			return Val{Addr: &Addr{class: c, typ: t}}
		}
		return Val{Addr: &Addr{class: globalClass(v), typ: t}}
	case *ssa.Function:
		return Val{Fn: &FuncVal{fn: v}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.bindings[i]
			}
		}
	case *ssa.Builtin:
		return Val{}
	}
	r, ok := st.env[envKey{fr.id, v}]
	if !ok {
		unsup("value %s (%T) of %s not available", v.Name(), v, fr.fn)
	}
	return r
}

func (p *Program) inRepoPkg(k *ssa.Package) bool {
	return k != nil && (k.Pkg.Path() == p.modPath || strings.HasPrefix(k.Pkg.Path(), p.modPath+"/"))
}

func (x *FnRun) set(fr *Frame, st *State, v ssa.Value, r Val) {
	st.env[envKey{fr.id, v}] = r
}

var fnReg = map[*Term]*FuncVal{}
var fnTerms = map[*FuncVal]*Term{}

// term of a value (functions and cell pointers get one)
func (x *FnRun) term(v Val) *Term {
	if v.T != nil {
		return v.T
	}
	if v.Fn != nil {
		if len(v.Fn.bindings) == 0 {
			t := App("fn:"+funcKey(v.Fn.fn), SFn)
			fnReg[t] = v.Fn
			return t
		}
		if t := fnTerms[v.Fn]; t != nil {
			return t
		}
		t := Fresh("fn$"+v.Fn.fn.Name(), SFn)
		fnReg[t] = v.Fn
		fnTerms[v.Fn] = t
		return t
	}
	if v.Addr != nil {
		if v.Addr.ref != nil && strings.HasPrefix(v.Addr.class, "cell:") {
			return v.Addr.ref
		}
		unsup("address of %s escapes", v.Addr.class)
	}
	unsup("value without a term")
	return nil
}

func (x *FnRun) fromTerm(t *Term, ty types.Type) Val {
	if t.sort == SFn {
		if f := fnReg[t]; f != nil {
			return Val{T: t, Fn: f}
		}
	}
	if pt, ok := ty.Underlying().(*types.Pointer); ok && !isStructVal(pt.Elem()) {
		if _, isStruct := pt.Elem().Underlying().(*types.Struct); !isStruct {
			return Val{T: t, Addr: &Addr{class: cellClass(pt.Elem()), ref: t, typ: pt.Elem()}}
		}
	}
	return Val{T: t}
}

// ---- memory

func (x *FnRun) newObject(st *State, tag string) *Term {
	a := st.alloc()
	st.setAlloc(Add(a, Int(1)))
	for _, r := range x.recs {
		r.alloc = true
	}
	ref := MkRef(a, Int(0))
	st.assume(Eq(App("tyof", SInt, a), typeTag(tag)))
	return ref
}

func (x *FnRun) storeAt(st *State, ref *Term, t types.Type, v *Term) {
	if s, ok := repoStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			x.storeField(st, ref, t, i, SelData(v, i))
		}
		return
	}
	c := cellClass(t)
	st.heap[c] = Store(st.get(c), ref, v)
	x.record(c, ref)
}

func (x *FnRun) storeField(st *State, ref *Term, t types.Type, i int, v *Term) {
	ft := structOf(t).Field(i).Type()
	if isStructVal(ft) {
		x.storeAt(st, SubRef(ref, i), ft, v)
		return
	}
	c := fieldClass(t, i)
	st.heap[c] = Store(st.get(c), ref, v)
	x.record(c, ref)
}

func (x *FnRun) nonNil(st *State, ref *Term, what string, pos token.Pos) {
	if ref == Nil {
		x.safety(st, "nil dereference: "+what, False, pos)
		return
	}
	if id := Rid(ref); id.op != "rid" {
		if _, _, ok := allocSeq(id); ok {
			return
		}
		// interior pointer: base object must be non-nil
		if id.isInt() {
			x.safety(st, "nil dereference: "+what, Not(Eq(id, Int(0))), pos)
			return
		}
	} else if p := ref; p.op == "mkref" { // sub-object of some ref
		x.safety(st, "nil dereference: "+what, Not(Eq(id, Int(0))), pos)
		return
	}
	x.safety(st, "nil dereference: "+what, Not(Eq(ref, Nil)), pos)
}

func (x *FnRun) load(st *State, p Val, ptrType types.Type, pos token.Pos) Val {
	el := ptrType.Underlying().(*types.Pointer).Elem()
	if a := p.Addr; a != nil {
		switch {
		case a.arr != nil:
			r := MkRef(Rid(a.arr), Add(Mul(Rpath(a.arr), Int(64)), a.idx, Int(1)))
			return x.fromTerm(Select(st.get(cellClass(a.typ)), r), el)
		case a.base != nil:
			t := SeqAt(a.base.T, a.idx)
			ty := a.ptyps[0]
			st.assume(wellTyped(st, t, ty))
			for i, f := range a.path {
				t = SelData(t, f)
				ty = a.ptyps[i+1]
			}
			return x.fromTerm(t, el)
		case a.ref == nil:
			v := x.fromTerm(st.get(a.class), el)
			v.Own = &Own{kind: "loc", loc: a.class}
			return v
		}
		x.nonNil(st, a.ref, a.class, pos)
		t := Select(st.get(a.class), a.ref)
		x.loadFacts(st, a.class, a.ref, t, el)
		v := x.fromTerm(t, el)
		if v.T.sort.IsSeq() {
			v.Own = &Own{kind: "loc", loc: a.class + "@" + fmt.Sprint(a.ref.id)}
			if o := st.env[envKey{-1, v.Own.loc}]; o.Own != nil {
				v.Own = &Own{kind: "loc", loc: v.Own.loc}
			}
		}
		return v
	}
	if p.T == nil {
		unsup("load through %v", p)
	}
	x.nonNil(st, p.T, el.String(), pos)
	if isStructVal(el) {
		return Val{T: loadAt(st, p.T, el)}
	}
	if _, ok := el.Underlying().(*types.Struct); ok { // opaque external struct
		return Val{T: App("deref_"+mangle(string(sortOf(el))), sortOf(el), p.T)}
	}
	t := Select(st.get(cellClass(el)), p.T)
	return x.fromTerm(t, el)
}

// loadFacts records that the heap is well typed
func (x *FnRun) loadFacts(st *State, class string, ref, t *Term, ty types.Type) {
	if t.op == "var" || t.op == "select" || t.op == "at" || t.op == "sel" {
		st.assume(wellTyped(st, t, ty))
	}
}

func (x *FnRun) store(st *State, p Val, ptrType types.Type, v Val, pos token.Pos) {
	el := ptrType.Underlying().(*types.Pointer).Elem()
	t := x.term(v)
	if a := p.Addr; a != nil {
		switch {
		case a.arr != nil:
			r := MkRef(Rid(a.arr), Add(Mul(Rpath(a.arr), Int(64)), a.idx, Int(1)))
			c := cellClass(a.typ)
			st.heap[c] = Store(st.get(c), r, t)
			x.record(c, r)
			return
		case a.base != nil:
			if len(a.path) > 0 {
				unsup("store into a field of a slice element")
			}
			s := a.base.T
			n := SeqApp(SeqTake(s, a.idx), SeqUnit(t), SeqDrop(s, Add(a.idx, Int(1))))
			x.mutateSlice(st, *a.base, n)
			return
		case a.ref == nil:
			st.heap[a.class] = t
			x.record(a.class, nil)
			x.clearPending(st, a.class, v)
			return
		}
		x.nonNil(st, a.ref, a.class, pos)
		st.heap[a.class] = Store(st.get(a.class), a.ref, t)
		x.record(a.class, a.ref)
		x.clearPending(st, a.class+"@"+fmt.Sprint(a.ref.id), v)
		return
	}
	x.nonNil(st, p.T, el.String(), pos)
	x.storeAt(st, p.T, el, t)
}

func (x *FnRun) clearPending(st *State, loc string, v Val) {
	if v.Own != nil && v.Own.kind == "fresh" {
		st.consumed[v.Own] = true
	}
	if v.Own != nil && v.Own.kind == "pending" && v.Own.loc == loc {
		delete(st.pending, loc)
	}
}

// mutateSlice: the elements of the array behind v change in place
func (x *FnRun) mutateSlice(st *State, v Val, n *Term) {
	old := v.T
	done := false
	if v.Own != nil && v.Own.kind == "loc" {
		// write back to the location it was loaded from
		loc := v.Own.loc
		if i := strings.LastIndex(loc, "@"); i >= 0 {
			class := loc[:i]
			for k := range map[int]bool{} {
				_ = k
			}
			if ref := refByID[loc[i+1:]]; ref != nil && Select(st.get(class), ref) == old {
				st.heap[class] = Store(st.get(class), ref, n)
				x.record(class, ref)
				done = true
			}
		} else if st.get(loc) == old {
			st.heap[loc] = n
			x.record(loc, nil)
			done = true
		}
	}
	for k, e := range st.env {
		if e.T == old && e.Own != nil && v.Own != nil && (e.Own == v.Own || e.Own.kind == "loc" && v.Own.kind == "loc" && e.Own.loc == v.Own.loc) {
			e.T = n
			st.env[k] = e
			done = true
		}
	}
	if !done || v.Own == nil || v.Own.kind == "shared" {
		unsup("in-place update of a slice with unknown owner")
	}
	if len(x.recs) > 0 && v.Own.kind != "loc" {
		unsup("in-place update of a local slice inside a loop")
	}
}

var refByID = map[string]*Term{}

// ---- running

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					loops[s] = body
				}
				var work []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range n.Preds {
						if !body[p] {
							body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	return loops
}

func (x *FnRun) newFrame(fn *ssa.Function, parent *Frame, bindings []Val, tag string, ret func(*State, []Val)) *Frame {
	x.frames++
	fr := &Frame{id: x.frames, fn: fn, parent: parent, bindings: bindings, ret: ret, loops: naturalLoops(fn)}
	fr.key = funcKey(fn)
	if parent != nil {
		fr.key = parent.key + ">" + tag + fr.key
		fr.depth = parent.depth + 1
	}
	return fr
}

const maxPaths = 60000

func (x *FnRun) enter(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	// leave loops
	for len(st.loops) > 0 {
		lc := st.loops[len(st.loops)-1]
		if lc.frame != fr.id || lc.body[to] {
			break
		}
		if lc.onLeave {
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	if len(st.loops) > 0 {
		lc := st.loops[len(st.loops)-1]
		if lc.frame == fr.id && lc.header == to && lc.body[from] {
			lc.onBack(st, from)
			return
		}
	}
	if body, ok := fr.loops[to]; ok {
		x.loopEntry(fr, to, body, from, st)
		return
	}
	x.phis(fr, from, to, st)
	if len(x.stops) > 0 {
		x.arrive(fr, to, st)
		return
	}
	x.run(fr, to, x.firstNonPhi(to), st)
}

func (x *FnRun) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic("not a predecessor")
}

func (x *FnRun) phis(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, x.val(fr, st, p.Edges[predIndex(to, from)]))
		ps = append(ps, p)
	}
	for i, p := range ps {
		x.set(fr, st, p, vs[i])
	}
}

func (x *FnRun) run(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	if st.dead() {
		return
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
		case *ssa.Jump:
			x.enter(fr, b, b.Succs[0], st)
			return
		case *ssa.If:
			c := x.val(fr, st, in.Cond).T
			if x.joining {
				x.branchJoin(fr, b, st, c)
				return
			}
			x.branch(st, c, func(s *State) { x.enter(fr, b, b.Succs[0], s) }, func(s *State) { x.enter(fr, b, b.Succs[1], s) })
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(fr, st, r))
			}
			x.doReturn(fr, st, res)
			return
		case *ssa.RunDefers:
			ds := st.defers[fr.id]
			if len(ds) > 0 {
				d := ds[len(ds)-1]
				st.defers[fr.id] = ds[:len(ds)-1]
				ii := i
				x.callWith(fr, st, d.call, d.fn, d.args, in.Pos(), func(s *State, _ Val) { x.run(fr, b, ii, s) })
				return
			}
		case *ssa.Panic:
			x.safety(st, "explicit panic", False, in.Pos())
			return
		case *ssa.Call:
			ii := i
			call := in
			f, args := x.callArgs(fr, st, &in.Call)
			x.callWith(fr, st, &in.Call, f, args, in.Pos(), func(s *State, r Val) {
				x.set(fr, s, call, r)
				x.run(fr, b, ii+1, s)
			})
			return
		case *ssa.Defer:
			f, args := x.callArgs(fr, st, &in.Call)
			st.defers[fr.id] = append(append([]deferred(nil), st.defers[fr.id]...), deferred{&in.Call, f, args})
		case *ssa.Next:
			ii := i
			x.next(fr, st, in, func(s *State) { x.run(fr, b, ii+1, s) })
			return
		default:
			x.simple(fr, st, in)
			if st.dead() {
				return
			}
		}
	}
}

func (x *FnRun) doReturn(fr *Frame, st *State, res []Val) {
	for len(st.loops) > 0 {
		lc := st.loops[len(st.loops)-1]
		if lc.frame != fr.id {
			break
		}
		if lc.onLeave {
			return
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	fr.ret(st, res)
}

func (x *FnRun) branch(st *State, c *Term, yes, no func(*State)) {
	if c == True || st.pcset[c] {
		yes(st)
		return
	}
	nc := Not(c)
	if c == False || st.pcset[nc] {
		no(st)
		return
	}
	x.paths++
	if x.paths > pathLimit && !x.joining {
		panic(tooManyPaths{})
	}
	if x.paths > maxPaths {
		unsup("more than %d paths", maxPaths)
	}
	s2 := st.clone()
	doYes, doNo := true, true
	if x.c != nil && x.c.Flags["prune"] && x.paths > 8 {
		if r := Solve(st.pc, nc, 0); r.Status == "unsat" {
			doYes = false
		} else if r := Solve(st.pc, c, 0); r.Status == "unsat" {
			doNo = false
		}
	}
	if doYes {
		st.assume(c)
		st.guards = append(st.guards, c)
		yes(st)
	}
	if doNo {
		s2.assume(nc)
		s2.guards = append(s2.guards, nc)
		no(s2)
	}
}

func (x *FnRun) simple(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok {
			ref := x.newObject(st, "array")
			z := zeroOf(at.Elem())
			c := cellClass(at.Elem())
			if at.Len() <= 16 {
				for i := int64(0); i < at.Len(); i++ {
					st.heap[c] = Store(st.get(c), MkRef(Rid(ref), Int(i+1)), z)
				}
			}
			x.set(fr, st, in, Val{T: ref, Addr: &Addr{arr: ref, arrLen: at.Len(), typ: at.Elem()}})
			return
		}
		ref := x.newObject(st, typeName(t))
		if isStructVal(t) {
			x.initZero(st, ref, t)
			x.set(fr, st, in, Val{T: ref})
			return
		}
		if _, ok := t.Underlying().(*types.Struct); ok && sortOf(t) != STime {
			c := cellClass(t)
			st.heap[c] = Store(st.get(c), ref, zeroOf(t))
			x.set(fr, st, in, Val{T: ref})
			return
		}
		c := cellClass(t)
		st.heap[c] = Store(st.get(c), ref, zeroOf(t))
		refByID[fmt.Sprint(ref.id)] = ref
		x.set(fr, st, in, Val{Addr: &Addr{class: c, ref: ref, typ: t}})
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X)
		stt := in.X.Type().Underlying().(*types.Pointer).Elem()
		ft := structUnder(stt).Field(in.Field).Type()
		if p.Addr != nil && p.Addr.base != nil {
			a := *p.Addr
			a.path = append(append([]int(nil), a.path...), in.Field)
			a.ptyps = append(append([]types.Type(nil), a.ptyps...), ft)
			x.set(fr, st, in, Val{Addr: &a})
			return
		}
		if !isStructVal(stt) {
			unsup("field of external struct %s", stt)
		}
		if p.Addr != nil && p.Addr.ref == nil && p.T == nil {
			// field of a global struct
			unsup("field of global struct")
		}
		x.nonNil(st, p.T, typeName(stt)+"."+structUnder(stt).Field(in.Field).Name(), in.Pos())
		if isStructVal(ft) {
			x.set(fr, st, in, Val{T: SubRef(p.T, in.Field)})
			return
		}
		refByID[fmt.Sprint(p.T.id)] = p.T
		x.set(fr, st, in, Val{Addr: &Addr{class: fieldClass(stt, in.Field), ref: p.T, typ: ft}})
	case *ssa.Field:
		v := x.val(fr, st, in.X)
		t := SelData(v.T, in.Field)
		st.assume(wellTyped(st, t, in.Type()))
		x.set(fr, st, in, x.fromTerm(t, in.Type()))
	case *ssa.IndexAddr:
		b := x.val(fr, st, in.X)
		i := x.val(fr, st, in.Index).T
		if b.Addr != nil && b.Addr.arr != nil {
			n := Int(b.Addr.arrLen)
			x.safety(st, "index out of range", And(Le(Int(0), i), Lt(i, n)), in.Pos())
			el := b.Addr.typ
			if isStructVal(el) {
				x.set(fr, st, in, Val{T: MkRef(Rid(b.Addr.arr), Add(i, Int(1)))})
				return
			}
			x.set(fr, st, in, Val{Addr: &Addr{arr: b.Addr.arr, idx: i, typ: el}})
			return
		}
		if b.T == nil || !b.T.sort.IsSeq() {
			if b.Addr != nil && b.Addr.ref == nil { // global array
				t := x.load(st, b, in.X.Type(), in.Pos())
				x.set(fr, st, in, Val{Addr: &Addr{base: &t, idx: i, ptyps: []types.Type{in.Type().Underlying().(*types.Pointer).Elem()}}})
				return
			}
			unsup("index address of %s", in.X.Type())
		}
		x.safety(st, "index out of range", And(Le(Int(0), i), Lt(i, SeqLen(b.T))), in.Pos())
		bb := b
		x.set(fr, st, in, Val{Addr: &Addr{base: &bb, idx: i, ptyps: []types.Type{in.Type().Underlying().(*types.Pointer).Elem()}}})
	case *ssa.Index:
		b := x.val(fr, st, in.X)
		i := x.val(fr, st, in.Index).T
		if b.T.sort == SStr {
			x.safety(st, "index out of range", And(Le(Int(0), i), Lt(i, SLen(b.T))), in.Pos())
			x.set(fr, st, in, Val{T: SAt(b.T, i)})
			return
		}
		x.safety(st, "index out of range", And(Le(Int(0), i), Lt(i, SeqLen(b.T))), in.Pos())
		x.set(fr, st, in, Val{T: SeqAt(b.T, i)})
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			x.set(fr, st, in, x.load(st, x.val(fr, st, in.X), in.X.Type(), in.Pos()))
		case token.NOT:
			x.set(fr, st, in, Val{T: Not(x.val(fr, st, in.X).T)})
		case token.SUB:
			v := x.val(fr, st, in.X).T
			if v.sort == SFloat {
				x.set(fr, st, in, Val{T: App("fneg", SFloat, v)})
				return
			}
			r := Neg(v)
			x.overflow(st, r, in.Type(), in.Pos())
			x.set(fr, st, in, Val{T: r})
		default:
			unsup("operator %s", in.Op)
		}
	case *ssa.BinOp:
		x.set(fr, st, in, Val{T: x.binop(st, in, x.val(fr, st, in.X), x.val(fr, st, in.Y))})
	case *ssa.Store:
		x.store(st, x.val(fr, st, in.Addr), in.Addr.Type(), x.val(fr, st, in.Val), in.Pos())
	case *ssa.MakeMap:
		m := in.Type().Underlying().(*types.Map)
		ref := x.newObject(st, typeName(m))
		k := sortOf(m.Key())
		c := mapClass(m, "dom")
		st.heap[c] = Store(st.get(c), ref, ConstArr(k, False))
		c = mapClass(m, "card")
		st.heap[c] = Store(st.get(c), ref, Int(0))
		x.set(fr, st, in, Val{T: ref})
	case *ssa.MapUpdate:
		m := in.Map.Type().Underlying().(*types.Map)
		ref := x.val(fr, st, in.Map).T
		k := x.term(x.val(fr, st, in.Key))
		v := x.term(x.val(fr, st, in.Value))
		x.safety(st, "assignment to a nil map", Not(Eq(ref, Nil)), in.Pos())
		x.mapSet(st, m, ref, k, v)
	case *ssa.Lookup:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := x.val(fr, st, in.X).T
			i := x.val(fr, st, in.Index).T
			x.safety(st, "index out of range", And(Le(Int(0), i), Lt(i, SLen(s))), in.Pos())
			r := SAt(s, i)
			st.assume(And(Le(Int(0), r), Le(r, Int(255))))
			x.set(fr, st, in, Val{T: r})
			return
		}
		m := in.X.Type().Underlying().(*types.Map)
		ref := x.val(fr, st, in.X).T
		k := x.term(x.val(fr, st, in.Index))
		dom := And(Not(Eq(ref, Nil)), Select(Select(st.get(mapClass(m, "dom")), ref), k))
		v := Select(Select(st.get(mapClass(m, "val")), ref), k)
		st.assume(Imp(dom, wellTypedDeep(st, v, m.Elem())))
		r := Ite(dom, v, zeroOf(m.Elem()))
		if _, ok := m.Elem().Underlying().(*types.Struct); ok && dom != True {
			// a name for the value keeps the terms made of its fields small
			n := Fresh("found", v.sort)
			st.assume(Imp(dom, Eq(n, v)))
			st.assume(Imp(Not(dom), Eq(n, zeroOf(m.Elem()))))
			r = n
		}
		if in.CommaOk {
			x.set(fr, st, in, Val{Tup: []Val{x.fromTerm(r, m.Elem()), {T: dom}}})
		} else {
			x.set(fr, st, in, x.fromTerm(r, m.Elem()))
		}
	case *ssa.Extract:
		x.set(fr, st, in, x.val(fr, st, in.Tuple).Tup[in.Index])
	case *ssa.MakeSlice:
		n := x.val(fr, st, in.Len).T
		et := in.Type().Underlying().(*types.Slice).Elem()
		var t *Term
		if n == Int(0) {
			t = SeqEmpty(sortOf(et))
		} else {
			x.safety(st, "negative slice length", Le(Int(0), n), in.Pos())
			t = Fresh("make", SeqOf(sortOf(et)))
			st.assume(Eq(SeqLen(t), n))
			i := BoundVar("i", SInt)
			st.assume(Forall([]*Term{i}, Imp(And(Le(Int(0), i), Lt(i, n)), Eq(SeqAt(t, i), zeroOf(et))), []*Term{SeqAt(t, i)}))
		}
		c := x.val(fr, st, in.Cap).T
		x.safety(st, "slice capacity", Le(n, c), in.Pos())
		x.set(fr, st, in, Val{T: t, Own: &Own{kind: "fresh"}})
	case *ssa.Slice:
		x.slice(fr, st, in)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, st, b))
		}
		f := &FuncVal{fn: in.Fn.(*ssa.Function), bindings: bs}
		v := Val{Fn: f}
		v.T = x.term(v)
		st.assume(Not(Eq(v.T, FnNil)))
		x.set(fr, st, in, v)
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		t := Box(x.term(v), in.X.Type())
		st.assume(Not(Eq(t, AnyNil)))
		if v.Own != nil {
			x.boxOwn[t] = v.Own
		}
		x.set(fr, st, in, Val{T: t})
	case *ssa.ChangeInterface:
		x.set(fr, st, in, Val{T: x.val(fr, st, in.X).T})
	case *ssa.ChangeType:
		x.set(fr, st, in, x.val(fr, st, in.X))
	case *ssa.Convert:
		x.set(fr, st, in, x.convert(st, in, x.val(fr, st, in.X)))
	case *ssa.Range:
		x.iterSeq++
		v := x.val(fr, st, in.X)
		it := &IterVal{id: x.iterSeq}
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			it.m, it.mt = v.T, m
			it.dom0 = Select(st.get(mapClass(m, "dom")), v.T)
			if v.T == Nil {
				it.dom0 = ConstArr(sortOf(m.Key()), False)
			}
			st.iters[it.id] = ConstArr(sortOf(m.Key()), False)
		} else {
			it.str = App("dec", SeqOf(SInt), v.T)
			st.iters[it.id] = Int(0)
		}
		x.set(fr, st, in, Val{Iter: it})
	case *ssa.TypeAssert:
		v := x.val(fr, st, in.X)
		n := "box:" + typeName(types.Unalias(in.AssertedType))
		if v.T.op == "app" && v.T.name == n {
			if in.CommaOk {
				x.set(fr, st, in, Val{Tup: []Val{x.fromTerm(v.T.args[0], in.AssertedType), {T: True}}})
			} else {
				x.set(fr, st, in, x.fromTerm(v.T.args[0], in.AssertedType))
			}
			return
		}
		r := Fresh("assert", sortOf(in.AssertedType))
		if in.CommaOk {
			x.set(fr, st, in, Val{Tup: []Val{x.fromTerm(r, in.AssertedType), {T: Fresh("ok", SBool)}}})
		} else {
			x.safety(st, "type assertion", Fresh("assertok", SBool), in.Pos())
			x.set(fr, st, in, x.fromTerm(r, in.AssertedType))
		}
	default:
		unsup("instruction %T", in)
	}
}

func wellTypedDeep(st *State, v *Term, t types.Type) *Term {
	if s, ok := repoStruct(t); ok {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, wellTypedDeep(st, SelData(v, i), s.Field(i).Type()))
		}
		return And(fs...)
	}
	return wellTyped(st, v, t)
}

func structUnder(t types.Type) *types.Struct { return t.Underlying().(*types.Struct) }

func (x *FnRun) initZero(st *State, ref *Term, t types.Type) {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if isStructVal(ft) {
			x.initZero(st, SubRef(ref, i), ft)
		} else {
			c := fieldClass(t, i)
			st.heap[c] = Store(st.get(c), ref, zeroOf(ft))
		}
	}
}

func (x *FnRun) mapSet(st *State, m *types.Map, ref, k, v *Term) {
	dc, vc, cc := mapClass(m, "dom"), mapClass(m, "val"), mapClass(m, "card")
	dom := Select(st.get(dc), ref)
	st.heap[cc] = Store(st.get(cc), ref, Add(Select(st.get(cc), ref), Ite(Select(dom, k), Int(0), Int(1))))
	st.heap[dc] = Store(st.get(dc), ref, Store(dom, k, True))
	st.heap[vc] = Store(st.get(vc), ref, Store(Select(st.get(vc), ref), k, v))
	x.record(dc, ref)
	x.record(vc, ref)
	x.record(cc, ref)
}

func (x *FnRun) mapDelete(st *State, m *types.Map, ref, k *Term) {
	dc, cc := mapClass(m, "dom"), mapClass(m, "card")
	dom := Select(st.get(dc), ref)
	st.heap[cc] = Store(st.get(cc), ref, Sub(Select(st.get(cc), ref), Ite(Select(dom, k), Int(1), Int(0))))
	st.heap[dc] = Store(st.get(dc), ref, Store(dom, k, False))
	x.record(dc, ref)
	x.record(cc, ref)
}

func (x *FnRun) slice(fr *Frame, st *State, in *ssa.Slice) {
	b := x.val(fr, st, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = x.val(fr, st, in.Low).T
	}
	if in.High != nil {
		hi = x.val(fr, st, in.High).T
	}
	if b.Addr != nil && b.Addr.arr != nil {
		n := b.Addr.arrLen
		if lo != nil || hi != nil {
			// make([]T, n, m) with constants: the array is not used otherwise
			if lo != nil || !hi.isInt() || len(*in.X.Referrers()) > 2 {
				unsup("partial slice of an array")
			}
			n = hi.n.Int64()
		}
		if n > 16 {
			unsup("slice of an array of %d elements", n)
		}
		t := SeqEmpty(sortOf(b.Addr.typ))
		c := st.get(cellClass(b.Addr.typ))
		for i := int64(0); i < n; i++ {
			r := MkRef(Rid(b.Addr.arr), Int(i+1))
			if isStructVal(b.Addr.typ) {
				t = SeqApp(t, SeqUnit(loadAt(st, r, b.Addr.typ)))
			} else {
				t = SeqApp(t, SeqUnit(Select(c, r)))
			}
		}
		x.set(fr, st, in, Val{T: t, Own: &Own{kind: "fresh"}})
		return
	}
	if b.T.sort == SStr {
		n := SLen(b.T)
		l, h := Int(0), n
		if lo != nil {
			l = lo
		}
		if hi != nil {
			h = hi
		}
		x.safety(st, "slice bounds out of range", And(Le(Int(0), l), Le(l, h), Le(h, n)), in.Pos())
		t := StrSub(b.T, l, h)
		st.assume(Eq(SLen(t), Sub(h, l)))
		x.set(fr, st, in, Val{T: t})
		return
	}
	if !b.T.sort.IsSeq() {
		unsup("slice of %s", in.X.Type())
	}
	n := SeqLen(b.T)
	t := b.T
	own := b.Own
	if hi != nil {
		// the upper bound may reach the capacity, of which nothing is known: require the length
		l := Int(0)
		if lo != nil {
			l = lo
		}
		x.safety(st, "slice bounds out of range", And(Le(Int(0), l), Le(l, hi), Le(hi, n)), in.Pos())
		t = SeqTake(t, hi)
		if hi != n && own != nil {
			if own.kind == "fresh" && !st.consumed[own] || own.kind == "fprefix" {
				own = &Own{kind: "fprefix"}
			} else {
				own = &Own{kind: "prefix"}
			}
		}
	} else if lo != nil {
		x.safety(st, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, n)), in.Pos())
	}
	if lo != nil {
		t = SeqDrop(t, lo)
	}
	x.set(fr, st, in, Val{T: t, Own: own})
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return
	}
	bits := uint(64)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), true
	}
	return new(big.Int).Neg(new(big.Int).Lsh(one, bits-1)), new(big.Int).Sub(new(big.Int).Lsh(one, bits-1), one), true
}

func inRange(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return True
	}
	return And(Le(BigInt(lo), t), Le(t, BigInt(hi)))
}

func (x *FnRun) checked() bool { return x.c != nil && x.c.Flags["checked"] }

func (x *FnRun) overflow(st *State, r *Term, ty types.Type, pos token.Pos) {
	if !x.checked() || r.isInt() || !pos.IsValid() { // no position: the index of a range loop
		return
	}
	g := inRange(r, ty)
	if g == True {
		return
	}
	x.oblige(st, "overflow", "no overflow", x.c.Props, g, x.pos(pos))
	st.assume(g)
}

func (x *FnRun) binop(st *State, in *ssa.BinOp, a, b Val) *Term {
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *Term
		at, bt := x.term(a), x.term(b)
		if at.sort.IsSeq() { // comparison with nil: nil and empty slices are identified
			if bt.op != "empty" {
				at, bt = bt, at
			}
			r = Eq(SeqLen(at), Int(0))
			x.assume["nil and empty slices are not distinguished"] = true
		} else {
			r = Eq(at, bt)
		}
		if in.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	s, t := a.T, b.T
	if s.sort == SStr {
		switch in.Op {
		case token.ADD:
			return Cat(s, t)
		case token.LSS:
			return App("strlt", SBool, s, t)
		case token.GTR:
			return App("strlt", SBool, t, s)
		case token.LEQ:
			return Not(App("strlt", SBool, t, s))
		case token.GEQ:
			return Not(App("strlt", SBool, s, t))
		}
	}
	if s.sort == SFloat {
		switch in.Op {
		case token.LSS:
			return App("flt", SBool, s, t)
		case token.GTR:
			return App("flt", SBool, t, s)
		case token.LEQ:
			return App("fle", SBool, s, t)
		case token.GEQ:
			return App("fle", SBool, t, s)
		}
		return App("f"+in.Op.String(), SFloat, s, t)
	}
	if s.sort == SBool {
		unsup("boolean operator %s", in.Op)
	}
	switch in.Op {
	case token.LSS:
		return Lt(s, t)
	case token.LEQ:
		return Le(s, t)
	case token.GTR:
		return Gt(s, t)
	case token.GEQ:
		return Ge(s, t)
	case token.ADD:
		r := Add(s, t)
		x.overflow(st, r, in.Type(), in.Pos())
		return r
	case token.SUB:
		r := Sub(s, t)
		x.overflow(st, r, in.Type(), in.Pos())
		return r
	case token.MUL:
		r := Mul(s, t)
		x.overflow(st, r, in.Type(), in.Pos())
		return r
	case token.QUO:
		x.safety(st, "division by zero", Not(Eq(t, Int(0))), in.Pos())
		r := TDiv(s, t)
		return r
	case token.REM:
		x.safety(st, "division by zero", Not(Eq(t, Int(0))), in.Pos())
		return TMod(s, t)
	}
	return App("bv"+in.Op.String(), SInt, s, t)
}

func (x *FnRun) convert(st *State, in *ssa.Convert, v Val) Val {
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == SInt && ts == SInt:
		lo, hi, _ := intRange(from)
		lo2, hi2, _ := intRange(to)
		if lo.Cmp(lo2) < 0 || hi.Cmp(hi2) > 0 {
			if x.checked() {
				x.oblige(st, "overflow", "conversion keeps the value", x.c.Props, inRange(v.T, to), x.pos(in.Pos()))
				st.assume(inRange(v.T, to))
			} else {
				x.assume["integer conversions keep the value"] = true
			}
		}
		return Val{T: v.T}
	case fs.IsSeq() && ts == SStr:
		sl := from.(*types.Slice)
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return Val{T: App("enc", SStr, v.T)}
		}
		return Val{T: App("strOfBytes", SStr, v.T)}
	case fs == SStr && ts.IsSeq():
		sl := to.(*types.Slice)
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return Val{T: App("dec", SeqOf(SInt), v.T), Own: &Own{kind: "fresh"}}
		}
		return Val{T: App("bytesOfStr", SeqOf(SInt), v.T), Own: &Own{kind: "fresh"}}
	case fs == SInt && ts == SStr:
		return Val{T: App("enc", SStr, SeqUnit(v.T))}
	case fs == SInt && ts == SFloat:
		return Val{T: App("itof", SFloat, v.T)}
	case fs == SFloat && ts == SInt:
		return Val{T: App("ftoi", SInt, v.T)}
	case fs == ts:
		return v
	}
	unsup("conversion %s to %s", from, to)
	return Val{}
}

func (x *FnRun) next(fr *Frame, st *State, in *ssa.Next, k func(*State)) {
	it := x.val(fr, st, in.Iter).Iter
	for _, r := range x.recs {
		r.iters[it.id] = true
	}
	if it.str != nil {
		pos := st.iters[it.id]
		s2 := st.clone()
		c := Lt(pos, SeqLen(it.str))
		if c != False {
			st.assume(c)
			st.assume(Le(Int(0), pos))
			idx := Fresh("byteidx", SInt)
			x.set(fr, st, in, Val{Tup: []Val{{T: True}, {T: idx}, {T: SeqAt(it.str, pos)}}})
			st.iters[it.id] = Add(pos, Int(1))
			k(st)
		}
		if c != True {
			s2.assume(Not(c))
			x.set(fr, s2, in, Val{Tup: []Val{{T: False}, {T: Int(0)}, {T: Int(0)}}})
			k(s2)
		}
		return
	}
	vis := st.iters[it.id]
	ks := sortOf(it.mt.Key())
	dom := Select(st.get(mapClass(it.mt, "dom")), it.m)
	if it.m == Nil {
		dom = ConstArr(ks, False)
	}
	s2 := st.clone()
	key := Fresh("key", ks)
	st.assume(Select(dom, key))
	st.assume(Not(Select(vis, key)))
	st.assume(Not(Eq(it.m, Nil)))
	if !st.dead() {
		v := Select(Select(st.get(mapClass(it.mt, "val")), it.m), key)
		st.assume(wellTypedDeep(st, v, it.mt.Elem()))
		st.assume(wellTypedDeep(st, key, it.mt.Key()))
		st.iters[it.id] = Store(vis, key, True)
		x.set(fr, st, in, Val{Tup: []Val{{T: True}, x.fromTerm(key, it.mt.Key()), x.fromTerm(v, it.mt.Elem())}})
		k(st)
	}
	b := BoundVar("k", ks)
	body := Imp(And(Select(it.dom0, b), Select(dom, b)), Select(vis, b))
	var pats [][]*Term
	for _, p := range []*Term{Select(dom, b), Select(vis, b)} {
		if p.op == "select" {
			pats = append(pats, []*Term{p})
		}
	}
	s2.assume(Or(Eq(it.m, Nil), Forall([]*Term{b}, body, pats...)))
	z := Val{T: zeroOf(it.mt.Key())}
	x.set(fr, s2, in, Val{Tup: []Val{{T: False}, z, {T: zeroOf(it.mt.Elem())}}})
	k(s2)
}

// ---- loops

type loopVar struct {
	id  string
	ty  *SType
	at  func(st *State, phase map[*ssa.Phi]Val) *Term
	phi bool
}

func (x *FnRun) loopEntry(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, from *ssa.BasicBlock, st *State) {
	key := fmt.Sprintf("%s:b%d", fr.key, h.Index)
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entryVals := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entryVals[p] = x.val(fr, st, p.Edges[predIndex(h, from)])
	}
	freshPhis := func(s *State) map[*ssa.Phi]Val {
		m := map[*ssa.Phi]Val{}
		for _, p := range phis {
			ev := entryVals[p]
			if ev.T == nil && (ev.Fn != nil || ev.Addr != nil || ev.Iter != nil) {
				unsup("loop-carried function or address")
			}
			t := Fresh("phi$"+p.Name(), ev.T.sort)
			s.assume(wellTypedDeep(s, t, p.Type()))
			v := x.fromTerm(t, p.Type())
			if ev.Own != nil && (ev.Own.kind == "fresh" || ev.Own.kind == "nil") {
				v.Own = &Own{kind: "fresh"}
			}
			m[p] = v
			x.set(fr, s, p, v)
		}
		return m
	}
	// discovery of what the loop modifies
	mods := newModSet()
	for iter := 0; iter < 5; iter++ {
		mark := bornCount
		ds := st.clone()
		x.havocMods(ds, mods, true)
		freshPhis(ds)
		rec := newModSet()
		rec.mark = mark
		x.recs = append(x.recs, rec)
		x.quiet++
		ds.loops = append(ds.loops, &loopCtx{key: key, frame: fr.id, header: h, body: body, onLeave: true, onBack: func(*State, *ssa.BasicBlock) {}})
		x.run(fr, h, x.firstNonPhi(h), ds)
		x.quiet--
		x.recs = x.recs[:len(x.recs)-1]
		if !mods.merge(rec) {
			break
		}
	}
	// propagate what this loop modifies to enclosing recorders
	for c, m := range mods.classes {
		if m.whole {
			x.record(c, nil)
		}
		for r := range m.refs {
			x.record(c, r)
		}
	}
	for _, r := range x.recs {
		if mods.alloc {
			r.alloc = true
		}
	}

	entrySt := st.clone()
	lvars := x.loopVars(fr, h, body, phis, st, mods)
	cands := x.candidates(fr, key, lvars, entrySt, mods)
	// entry
	for _, c := range cands {
		if g := c.eval(st, entryVals); g != nil {
			if o := x.oblige(st, "inv-entry", "loop invariant holds on entry: "+c.src, nil, g, x.pos(loopPos(h))); o != nil {
				o.Cand = c.key
			}
		}
	}
	hs := st.clone()
	x.havocMods(hs, mods, mods.alloc)
	hv := freshPhis(hs)
	for _, c := range cands {
		if g := c.eval(hs, hv); g != nil {
			hs.assume(g)
			nameGhost(hs, g)
		}
	}
	// measures
	auto := x.iterLoop(h, body)
	type meas struct {
		key string
		m0  *Term
		f   func(st *State, ph map[*ssa.Phi]Val) *Term
	}
	var ms []meas
	if auto {
		x.autoTerm[key] = true
	} else if x.quiet == 0 {
		x.groups[key] = x.pos(loopPos(h))
		for _, m := range x.measures(fr, key, lvars, entrySt, h, body) {
			if t := m.eval(hs, hv); t != nil {
				ms = append(ms, meas{m.key, t, m.eval})
			}
		}
	}
	headAlloc := hs.alloc()
	_ = headAlloc
	hs.path = append(hs.path, "loop "+x.pos(loopPos(h)))
	hs.loops = append(hs.loops, &loopCtx{key: key, frame: fr.id, header: h, body: body, onBack: func(bs *State, b *ssa.BasicBlock) {
		if x.quiet == 0 {
			x.backEdges[key]++
		}
		bv := map[*ssa.Phi]Val{}
		for _, p := range phis {
			bv[p] = x.val(fr, bs, p.Edges[predIndex(h, b)])
			if ho := hv[p].Own; ho != nil && ho.kind == "fresh" && hv[p].T.sort.IsSeq() {
				if o := bv[p].Own; o == nil || o.kind != "fresh" && o.kind != "nil" || bs.consumed[o] {
					x.appendBad(bs, "a slice carried around the loop", loopPos(h))
				}
			}
		}
		for _, c := range cands {
			if g := c.eval(bs, bv); g != nil {
				if o := x.oblige(bs, "inv-kept", "loop invariant is kept: "+c.src, nil, g, x.pos(loopPos(h))); o != nil {
					o.Cand = c.key
				}
			}
		}
		for _, m := range ms {
			if m1 := m.f(bs, bv); m1 != nil {
				if x.quiet == 0 {
					g := And(Le(Int(0), m.m0), Lt(m1, m.m0))
					o := &Obl{Fn: x.key, Name: "loop measure decreases", Kind: "decreases", Tags: []string{"C23"}, Hyps: append([]*Term(nil), bs.pc...), Goal: g, Pos: x.pos(loopPos(h)), Cand: m.key, Group: key}
					x.obls = append(x.obls, o)
				}
			}
		}
	}})
	x.run(fr, h, x.firstNonPhi(h), hs)
}

// nameGhost replaces a havocked ghost of a sequence or text by the term an
// assumed equation gives for it, so that what is built on it is flattened
func nameGhost(st *State, g *Term) {
	if g.op != "=" || len(g.args) != 2 {
		return
	}
	for c, t := range st.heap {
		if !strings.HasPrefix(c, "ghost:") || t.op != "var" || c == "ghost:alloc" {
			continue
		}
		for i := 0; i < 2; i++ {
			if g.args[i] == t && g.args[1-i].op == "cat" && !termMentions(g.args[1-i], t) {
				st.heap[c] = g.args[1-i]
				return
			}
		}
	}
}

func termMentions(t, v *Term) bool {
	seen := map[*Term]bool{}
	var walk func(*Term) bool
	walk = func(x *Term) bool {
		if x == v {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range h.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return h.Parent().Pos()
}

// iterLoop: the header advances a map or string iterator
func (x *FnRun) iterLoop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func (x *FnRun) havocMods(st *State, mods *modSet, alloc bool) {
	if alloc {
		st.havoc("ghost:alloc")
	}
	var cs []string
	for c := range mods.classes {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		m := mods.classes[c]
		if m.whole || isDirectClass(c) {
			if c == "ghost:alloc" {
				continue
			}
			st.havoc(c)
			x.wfHeap(st, c)
			continue
		}
		var rs []*Term
		for r := range m.refs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return termLess(rs[i], rs[j]) })
		_, vs := classSort[c].ArrParts()
		for _, r := range rs {
			v := Fresh("hv", vs)
			if g := classGo[c]; g != nil && !strings.HasPrefix(c, "map:") {
				st.assume(wellTypedDeep(st, v, g))
			}
			st.heap[c] = Store(st.get(c), r, v)
		}
	}
	var its []int
	for i := range mods.iters {
		its = append(its, i)
	}
	sort.Ints(its)
	for _, i := range its {
		if o, ok := st.iters[i]; ok {
			st.iters[i] = Fresh("iter", o.sort)
		}
	}
}

type cand struct {
	key  string
	src  string
	eval func(st *State, ph map[*ssa.Phi]Val) *Term
}

func (x *FnRun) loopVars(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, st *State, mods *modSet) []loopVar {
	var lv []loopVar
	for i, p := range phis {
		p := p
		id := fmt.Sprintf("phi%d", i)
		ty := goST(p.Type())
		lv = append(lv, loopVar{id, ty, func(_ *State, ph map[*ssa.Phi]Val) *Term { return ph[p].T }, true})
		if ty.Sort == SInt {
			lv = append(lv, loopVar{id + "+1", ty, func(_ *State, ph map[*ssa.Phi]Val) *Term { return Add(ph[p].T, Int(1)) }, true})
		}
	}
	// local cells and loop-invariant values used in the loop
	type ent struct {
		v   ssa.Value
		val Val
	}
	var ents []ent
	var outer []*ssa.Phi
	seen := map[ssa.Value]bool{}
	add := func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		if val, ok := st.env[envKey{fr.id, v}]; ok {
			if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && body[in.Block()] {
				return
			}
			ents = append(ents, ent{v, val})
		} else if fv, ok := v.(*ssa.FreeVar); ok {
			ents = append(ents, ent{v, x.val(fr, st, fv)})
		}
	}
	for _, b := range fr.fn.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			var ops [10]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if *o != nil {
					add(*o)
				}
			}
		}
	}
	// positions of the enclosing loops
	for h2, b2 := range naturalLoops(fr.fn) {
		if h2 != h && b2[h] {
			for _, in := range h2.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					outer = append(outer, p)
				}
			}
		}
	}
	sort.Slice(outer, func(i, j int) bool {
		return outer[i].Pos() < outer[j].Pos() || outer[i].Pos() == outer[j].Pos() && outer[i].Name() < outer[j].Name()
	})
	outerPhi := map[ssa.Value]bool{}
	for _, p := range outer {
		add(p)
		outerPhi[p] = true
	}
	for i, e := range ents {
		e := e
		id := fmt.Sprintf("v%d", i)
		switch {
		case e.val.Addr != nil && e.val.Addr.ref != nil && strings.HasPrefix(e.val.Addr.class, "cell:"):
			a := e.val.Addr
			lv = append(lv, loopVar{id, goST(a.typ), func(s *State, _ map[*ssa.Phi]Val) *Term { return Select(s.get(a.class), a.ref) }, true})
		case structLocal(e.v) != nil && e.val.T != nil && e.val.Addr == nil:
			t, el := e.val.T, structLocal(e.v)
			lv = append(lv, loopVar{id, goST(e.v.Type()), func(*State, map[*ssa.Phi]Val) *Term { return t }, false})
			lv = append(lv, loopVar{"*" + id, goST(el), func(s *State, _ map[*ssa.Phi]Val) *Term { return loadAt(s, t, el) }, true})
		case e.val.T != nil && e.val.Addr == nil:
			t := e.val.T
			lv = append(lv, loopVar{id, goST(e.v.Type()), func(*State, map[*ssa.Phi]Val) *Term { return t }, false})
			if outerPhi[e.v] && t.sort == SInt {
				lv = append(lv, loopVar{id + "+1", goST(e.v.Type()), func(*State, map[*ssa.Phi]Val) *Term { return Add(t, Int(1)) }, false})
			}
		case e.val.Iter != nil && mods.iters[e.val.Iter.id]:
			it := e.val.Iter
			if it.str != nil {
				lv = append(lv, loopVar{id, stInt, func(s *State, _ map[*ssa.Phi]Val) *Term { return s.iters[it.id] }, true})
			} else {
				k := goST(it.mt.Key())
				lv = append(lv, loopVar{id, &SType{Sort: ArrOf(k.Sort, SBool), K: k, V: stBool}, func(s *State, _ map[*ssa.Phi]Val) *Term { return s.iters[it.id] }, true})
			}
		}
	}
	return lv
}

// structLocal is the type of a local variable that holds a struct of the repository
func structLocal(v ssa.Value) types.Type {
	if a, ok := v.(*ssa.Alloc); ok {
		t := a.Type().(*types.Pointer).Elem()
		if _, ok := repoStruct(t); ok {
			return t
		}
	}
	return nil
}

func sameST(a, b *SType) bool {
	if a.Sort != b.Sort {
		return false
	}
	if a.Go != nil && b.Go != nil {
		if a.Sort == SInt || a.Sort == SStr || a.Sort == SBool {
			return true
		}
		return types.Identical(types.Unalias(a.Go), types.Unalias(b.Go)) || typeName(a.Go.Underlying()) == typeName(b.Go.Underlying())
	}
	return true
}

// instances enumerates assignments of loop variables to the holes of a template
func (x *FnRun) instances(cl *Clause, lv []loopVar, pkg string, f func(id string, sel []loopVar)) {
	var tys []*SType
	for _, h := range cl.Holes {
		tys = append(tys, resolveType(h.Type, pkg))
	}
	var rec func(i int, sel []loopVar)
	rec = func(i int, sel []loopVar) {
		if i == len(tys) {
			anyPhi := len(sel) == 0
			var ids []string
			for _, s := range sel {
				anyPhi = anyPhi || s.phi
				ids = append(ids, s.id)
			}
			if anyPhi {
				f(strings.Join(ids, ","), append([]loopVar(nil), sel...))
			}
			return
		}
		for _, v := range lv {
			if sameST(v.ty, tys[i]) {
				dup := false
				for _, s := range sel {
					if s.id == v.id {
						dup = true
					}
				}
				if !dup {
					rec(i+1, append(sel, v))
				}
			}
		}
	}
	rec(0, nil)
}

func (x *FnRun) template(key string, n int, cl *Clause, pkg string, lv []loopVar, entrySt *State, out *[]cand) {
	x.instances(cl, lv, pkg, func(id string, sel []loopVar) {
		k := fmt.Sprintf("%s#%s%d/%s", key, cl.Kind, n, id)
		if x.dropped[k] {
			return
		}
		*out = append(*out, cand{k, cl.Src + " <" + id + ">", func(st *State, ph map[*ssa.Phi]Val) (r *Term) {
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("GOVC_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "template", k, e)
					}
					x.dropped[k] = true
					r = nil
				}
			}()
			e := &SEnv{db: x.v.db, pkg: pkg, vars: map[string]TV{}, st: st, old: x.entry, entry: entrySt}
			for n, v := range x.vars {
				e.vars[n] = v
			}
			for i, h := range cl.Holes {
				e.vars[h.Name] = TV{sel[i].at(st, ph), sel[i].ty}
			}
			return e.eval(cl.E).T
		}})
	})
}

func (x *FnRun) candidates(fr *Frame, key string, lv []loopVar, entrySt *State, mods *modSet) []cand {
	var out []cand
	if x.c != nil {
		for i, cl := range x.c.get("inv") {
			x.template(key, i, cl, x.c.Pkg, lv, entrySt, &out)
		}
		if _, ok := x.v.alt.Load(x.key); ok {
			for i, cl := range x.c.get("alt") {
				x.template(key, 500+i, cl, x.c.Pkg, lv, entrySt, &out)
			}
		}
	}
	for j, lc := range x.v.db.Loops {
		if lc.Pkg == pkgNameOf(x.fn) {
			for i, cl := range lc.get("inv") {
				x.template(key, 1000*(j+1)+i, cl, lc.Pkg, lv, entrySt, &out)
			}
		}
	}
	add := func(id, src string, f func(st *State, ph map[*ssa.Phi]Val) *Term) {
		k := key + "#auto/" + id
		if !x.dropped[k] {
			out = append(out, cand{k, src, f})
		}
	}
	for _, v := range lv {
		v := v
		if !v.phi || strings.HasSuffix(v.id, "+1") {
			continue
		}
		switch {
		case v.ty.Sort == SInt:
			add(v.id+">=-1", v.id+" >= -1", func(st *State, ph map[*ssa.Phi]Val) *Term { return Le(Int(-1), v.at(st, ph)) })
			add(v.id+">=0", v.id+" >= 0", func(st *State, ph map[*ssa.Phi]Val) *Term { return Le(Int(0), v.at(st, ph)) })
			for _, w := range lv {
				w := w
				if w.phi {
					continue
				}
				if w.ty.Sort == SInt {
					add(v.id+"<="+w.id, v.id+" <= "+w.id, func(st *State, ph map[*ssa.Phi]Val) *Term { return Le(v.at(st, ph), w.at(st, ph)) })
					add(v.id+"<"+w.id, v.id+" < "+w.id, func(st *State, ph map[*ssa.Phi]Val) *Term { return Lt(v.at(st, ph), w.at(st, ph)) })
				}
				if w.ty.Sort.IsSeq() {
					add(v.id+"<=len "+w.id, v.id+" <= len("+w.id+")", func(st *State, ph map[*ssa.Phi]Val) *Term { return Le(v.at(st, ph), SeqLen(w.at(st, ph))) })
				}
			}
		case v.ty.Sort == SRef:
			add(v.id+"!=nil", v.id+" != nil", func(st *State, ph map[*ssa.Phi]Val) *Term { return Not(Eq(v.at(st, ph), Nil)) })
		case v.ty.K != nil && v.ty.V == stBool:
			// visited keys were in the map when the iteration began
		}
	}
	for id := range mods.iters {
		id := id
		for _, e := range entrySt.env {
			if e.Iter != nil && e.Iter.id == id && e.Iter.m != nil {
				it := e.Iter
				add(fmt.Sprintf("vis%s", "dom"), "visited keys are keys of the map", func(st *State, ph map[*ssa.Phi]Val) *Term {
					b := BoundVar("k", sortOf(it.mt.Key()))
					s := Select(st.iters[it.id], b)
					if s == False {
						return True
					}
					return Forall([]*Term{b}, Imp(s, Select(it.dom0, b)), []*Term{s})
				})
				break
			}
		}
	}
	if x.c != nil && newIs(x.c, Int(0)) != nil && mods.alloc {
		add("noalloc", "only permitted objects were created since the function began", func(st *State, ph map[*ssa.Phi]Val) *Term {
			if st.alloc() == x.entry.alloc() {
				return True
			}
			i := BoundVar("i", SInt)
			return Forall([]*Term{i}, Imp(And(Le(x.entry.alloc(), i), Lt(i, st.alloc())), newIs(x.c, i)), []*Term{App("tyof", SInt, i)})
		})
	}
	// objects existing at function entry are unchanged
	var cs []string
	for c, m := range mods.classes {
		if m.whole && !isDirectClass(c) {
			cs = append(cs, c)
		}
	}
	sort.Strings(cs)
	for _, c := range cs {
		c := c
		// ... apart from those the contract allows to change
		var ms []Mod
		restricted := true
		for _, m := range x.mods {
			if m.class == c {
				ms = append(ms, m)
				restricted = restricted && (m.ref != nil || m.where != nil)
			}
		}
		if len(ms) > 0 && restricted {
			add("frameC:"+c, "objects that existed on entry and are not to be modified keep "+c, func(st *State, ph map[*ssa.Phi]Val) *Term {
				n, o := st.get(c), x.entry.get(c)
				if n == o {
					return True
				}
				r := BoundVar("r", SRef)
				var perm []*Term
				for _, m := range ms {
					if m.ref != nil {
						perm = append(perm, Eq(r, m.ref))
					} else {
						perm = append(perm, m.where(r))
					}
				}
				return Forall([]*Term{r}, Imp(And(Lt(Rid(r), x.entry.alloc()), Not(Or(perm...))), Eq(Select(n, r), Select(o, r))), []*Term{Select(n, r)})
			})
		}
		add("frame:"+c, "objects that existed on entry keep "+c, func(st *State, ph map[*ssa.Phi]Val) *Term {
			n, o := st.get(c), x.entry.get(c)
			if n == o {
				return True
			}
			r := BoundVar("r", SRef)
			return Forall([]*Term{r}, Imp(Lt(Rid(r), x.entry.alloc()), Eq(Select(n, r), Select(o, r))), []*Term{Select(n, r)})
		})
		add("frameL:"+c, "objects that existed before the loop keep "+c, func(st *State, ph map[*ssa.Phi]Val) *Term {
			n, o := st.get(c), entrySt.get(c)
			if n == o {
				return True
			}
			r := BoundVar("r", SRef)
			return Forall([]*Term{r}, Imp(Lt(Rid(r), entrySt.alloc()), Eq(Select(n, r), Select(o, r))), []*Term{Select(n, r)})
		})
	}
	return out
}

func (x *FnRun) measures(fr *Frame, key string, lv []loopVar, entrySt *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []cand {
	var out []cand
	if x.c != nil {
		for i, cl := range x.c.get("measure") {
			x.template(key, i, cl, x.c.Pkg, lv, entrySt, &out)
		}
	}
	for j, lc := range x.v.db.Loops {
		if lc.Pkg == pkgNameOf(x.fn) {
			for i, cl := range lc.get("measure") {
				x.template(key, 1000*(j+1)+i, cl, lc.Pkg, lv, entrySt, &out)
			}
		}
	}
	for _, v := range lv {
		v := v
		if !v.phi || v.ty.Sort != SInt || strings.HasSuffix(v.id, "+1") {
			continue
		}
		k := key + "#dec/" + v.id
		if !x.dropped[k] {
			out = append(out, cand{k, v.id, v.at})
		}
		for _, w := range lv {
			w := w
			if w.phi {
				continue
			}
			if w.ty.Sort == SInt {
				k := key + "#dec/" + w.id + "-" + v.id
				if !x.dropped[k] {
					out = append(out, cand{k, w.id + "-" + v.id, func(st *State, ph map[*ssa.Phi]Val) *Term { return Sub(w.at(st, ph), v.at(st, ph)) }})
				}
			}
			if w.ty.Sort.IsSeq() {
				k := key + "#dec/len" + w.id + "-" + v.id
				if !x.dropped[k] {
					out = append(out, cand{k, "len " + w.id + "-" + v.id, func(st *State, ph map[*ssa.Phi]Val) *Term { return Sub(SeqLen(w.at(st, ph)), v.at(st, ph)) }})
				}
			}
		}
	}
	return out
}

// wfHeap: references stored in objects that exist are well typed
func (x *FnRun) wfHeap(st *State, c string) {
	g := classGo[c]
	if g == nil || isDirectClass(c) || strings.HasPrefix(c, "map:") {
		return
	}
	arr := st.get(c)
	if arr.op != "var" {
		return
	}
	r := BoundVar("r", SRef)
	sel := Select(arr, r)
	if sel.sort == SRef {
		st.assume(Forall([]*Term{r}, Imp(Lt(Rid(r), st.alloc()), wellTyped(st, sel, g)), []*Term{sel}))
	} else if sel.sort == SeqOf(SRef) {
		i := BoundVar("i", SInt)
		el := SeqAt(sel, i)
		st.assume(Forall([]*Term{r, i}, Imp(And(Lt(Rid(r), st.alloc()), Le(Int(0), i), Lt(i, SeqLen(sel))), wellTyped(st, el, g.Underlying().(*types.Slice).Elem())), []*Term{el}))
	}
}
