package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mod is one entry of a modifies clause, evaluated in the pre-state
type Mod struct {
	class string
	ref   *Term               // nil: the whole class
	where func(r *Term) *Term // optional restriction of the whole class
	elem  bool
}

func (x *FnRun) callArgs(fr *Frame, st *State, call *ssa.CallCommon) (Val, []Val) {
	var args []Val
	f := Val{}
	if call.IsInvoke() {
		args = append(args, x.val(fr, st, call.Value))
	} else {
		f = x.val(fr, st, call.Value)
	}
	for _, a := range call.Args {
		args = append(args, x.val(fr, st, a))
	}
	return f, args
}

func (x *FnRun) callWith(fr *Frame, st *State, call *ssa.CallCommon, f Val, args []Val, pos token.Pos, k func(*State, Val)) {
	if b, ok := call.Value.(*ssa.Builtin); ok {
		x.builtin(fr, st, b.Name(), call, args, pos, k)
		return
	}
	if call.IsInvoke() {
		m := call.Method
		recv := args[0]
		if m.Name() == "Error" && m.Type().(*types.Signature).Params().Len() == 0 {
			x.safety(st, "nil error value", Not(Eq(recv.T, AnyNil)), pos)
			k(st, Val{T: App("emsg", SStr, recv.T)})
			return
		}
		// concrete receiver known?
		if recv.T.op == "app" && strings.HasPrefix(recv.T.name, "box:") {
			t := boxTypes[recv.T.name]
			if fn := x.v.prog.prog.LookupMethod(t, m.Pkg(), m.Name()); fn != nil {
				args[0] = x.fromTerm(recv.T.args[0], t)
				x.callFn(fr, st, &FuncVal{fn: fn}, args, pos, k)
				return
			}
		}
		key := typeName(call.Value.Type()) + "." + m.Name()
		if c := x.v.db.Contracts[key]; c != nil {
			x.applyContract(fr, st, c, nil, m.Type().(*types.Signature), args, pos, k, nil)
			return
		}
		x.unknownCall(st, key, m.Type().(*types.Signature), k)
		return
	}
	if f.Fn != nil {
		x.callFn(fr, st, f.Fn, args, pos, k)
		return
	}
	// unknown function value
	x.safety(st, "call of a nil function", Not(Eq(f.T, FnNil)), pos)
	key := x.fnValueKey(f.T)
	sig := call.Value.Type().Underlying().(*types.Signature)
	c := x.v.db.Funcvals[key]
	if c == nil {
		c = x.v.db.Funcvals[typeName(call.Value.Type())]
	}
	if c == nil {
		c = x.v.db.Funcvals[sigKey(sig)]
	}
	if c == nil {
		// pure by default is unsound: an unknown function may do anything to the heap
		unsup("call of unknown function value %q", key)
	}
	if c.Flags["pure"] {
		as := []*Term{f.T}
		for _, a := range args {
			as = append(as, x.term(a))
		}
		if sig.Results().Len() == 1 {
			s := sortOf(sig.Results().At(0).Type())
			r := App(applyName(as, s), s, as...)
			st.assume(wellTypedDeep(st, r, sig.Results().At(0).Type()))
			x.assume["callback "+key+" is a pure function"] = true
			k(st, x.fromTerm(r, sig.Results().At(0).Type()))
			return
		}
	}
	x.applyContract(fr, st, c, nil, sig, args, pos, k, f.T)
}

// sigKey names a function type by its parameter and result types
func sigKey(sig *types.Signature) string {
	k := "func("
	for i := 0; i < sig.Params().Len(); i++ {
		k += typeName(sig.Params().At(i).Type()) + ","
	}
	k += ")("
	for i := 0; i < sig.Results().Len(); i++ {
		k += typeName(sig.Results().At(i).Type()) + ","
	}
	return k + ")"
}

var fnParamKey = map[*Term]string{}

func (x *FnRun) fnValueKey(t *Term) string {
	if k := fnParamKey[t]; k != "" {
		return k
	}
	if t.op == "select" {
		return classOfArr(t.args[0])
	}
	if t.op == "sel" {
		return string(t.args[0].sort) + "." + t.name
	}
	if t.op == "ite" {
		a, b := x.fnValueKey(t.args[1]), x.fnValueKey(t.args[2])
		if a == b || b == "" {
			return a
		}
		return b
	}
	return ""
}

func sigResult(sig *types.Signature, res []Val) Val {
	switch sig.Results().Len() {
	case 0:
		return Val{}
	case 1:
		return res[0]
	}
	return Val{Tup: res}
}

func (x *FnRun) callFn(fr *Frame, st *State, f *FuncVal, args []Val, pos token.Pos, k func(*State, Val)) {
	fn := f.fn
	// wrappers: bound methods, promoted methods
	key := funcKey(fn)
	if x.model(fr, st, fn, args, pos, k) {
		return
	}
	// locally specialised contract
	if lc := x.localFor(fn, args); lc != nil {
		x.applyContract(fr, st, lc, fn, fn.Signature, args, pos, k, nil)
		x.verifyLocal(fr, st, lc, fn, args)
		return
	}
	if x.evalPureDepth == 0 || true {
		if c := x.v.contractFor(key); c != nil && !c.Inline && len(f.bindings) == 0 {
			x.called[key] = true
			x.applyContract(fr, st, c, fn, fn.Signature, args, pos, k, nil)
			return
		}
	}
	if fn.Blocks != nil && (x.v.prog.inRepo(fn) || fn.Synthetic != "") {
		d := 0
		for p := fr; p != nil; p = p.parent {
			if p.fn == fn {
				d++
			}
		}
		if d > 0 {
			unsup("recursive function %s has no contract", key)
		}
		if fr.depth > 25 {
			unsup("inlining too deep at %s", key)
		}
		if x.v.prog.inRepo(fn) && fn.Synthetic == "" {
			x.inlined[key] = true
		}
		nf := x.newFrame(fn, fr, f.bindings, "", nil)
		for i, p := range fn.Params {
			a := args[i]
			if a.T != nil && a.T.sort.IsSeq() && a.Own != nil && a.Own.kind == "fresh" {
				// ownership moves with the value
			}
			x.set(nf, st, p, a)
		}
		depth := len(st.loops)
		var base *State
		var rets []arrival
		if x.joining {
			base = st.clone()
		}
		nf.ret = func(s *State, res []Val) {
			if len(s.loops) > depth {
				s.loops = s.loops[:depth]
			}
			if base != nil {
				rets = append(rets, arrival{st: s, res: res})
				return
			}
			k(s, sigResult(fn.Signature, res))
		}
		x.run(nf, fn.Blocks[0], 0, st)
		for _, a := range x.mergeArrivals(base, rets) {
			k(a.st, sigResult(fn.Signature, a.res))
		}
		return
	}
	x.unknownCall(st, key, fn.Signature, k)
}

// unknownCall: an external function without a contract
func (x *FnRun) unknownCall(st *State, key string, sig *types.Signature, k func(*State, Val)) {
	x.assume["external "+key+": no effect on program state, does not panic, result unconstrained"] = true
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if !isTermType(t) {
			unsup("result of %s", key)
		}
		r := Fresh("ext", sortOf(t))
		if pt, ok := t.Underlying().(*types.Pointer); ok && !isStructVal(pt.Elem()) {
			r = Fresh("ext", SRef)
		} else {
			st.assume(wellTypedDeep(st, r, t))
		}
		res = append(res, x.fromTerm(r, t))
	}
	k(st, sigResult(sig, res))
}

func isTermType(t types.Type) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	sortOf(t)
	return true
}

// ---- contracts at call sites

func (x *FnRun) sigTypes(fn *ssa.Function, sig *types.Signature, args []Val) []types.Type {
	var ts []types.Type
	if fn != nil {
		for _, p := range fn.Params {
			ts = append(ts, p.Type())
		}
		if len(fn.Params) == 0 && fn.Blocks == nil {
			if r := sig.Recv(); r != nil {
				ts = append(ts, r.Type())
			}
			for i := 0; i < sig.Params().Len(); i++ {
				ts = append(ts, sig.Params().At(i).Type())
			}
		}
		return ts
	}
	if len(args) == sig.Params().Len()+1 {
		if r := sig.Recv(); r != nil {
			ts = append(ts, r.Type())
		} else {
			ts = append(ts, types.NewInterfaceType(nil, nil))
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func (x *FnRun) mods0(c *Contract, e *SEnv) []Mod {
	var ms []Mod
	for _, cl := range c.get("modifies") {
		if cl.E == nil {
			continue
		}
		ms = append(ms, x.evalMod(c, cl, e)...)
	}
	return ms
}

func (x *FnRun) evalMod(c *Contract, cl *Clause, e *SEnv) []Mod {
	ex := cl.E
	if ex.Op == "ite" { // cond ? m1 : m2 is not supported
		panic("conditional modifies")
	}
	// T.F.G[*] where x: cond(x): field G of the struct embedded as F in objects of type T
	nested := ex
	if ex.Op == "all" {
		nested = ex.Args[0]
	}
	if (ex.Op == "all" || cl.Where != nil) && nested.Op == "field" && nested.Args[0].Op == "field" && typeRef(nested.Args[0].Args[0]) != "" {
		if tt := resolveSpecTypeMaybe(typeRef(nested.Args[0].Args[0]), e.pkg); tt != nil && structOf(tt) != nil {
			i := fieldIndex(tt, nested.Args[0].Name)
			if i < 0 || embeddedTypes[typeName(tt)] {
				panic("modifies " + nested.Args[0].Name)
			}
			ft := structOf(tt).Field(i).Type()
			j := fieldIndex(ft, nested.Name)
			return []Mod{{class: fieldClass(ft, j), where: func(r *Term) *Term {
				o := MkRef(Rid(r), Int(0))
				c := True
				if cl.Where != nil {
					c = e.with(cl.WVar, TV{o, goST(types.NewPointer(tt))}).eval(cl.Where).T
				}
				return And(Eq(r, SubRef(o, i)), Eq(TyOf(r), typeTag(typeName(tt))), c)
			}}}
		}
	}
	if ex.Op == "all" {
		cs, _ := e.class(ex.Args[0])
		m := Mod{class: cs}
		if cl.Where != nil {
			m.where = whereFn(cl, e, cs)
		}
		return []Mod{m}
	}
	if ex.Op == "ident" && ex.Name == "alloc" {
		return nil
	}
	// ghost or global
	if ex.Op == "ident" {
		if _, isVar := e.vars[ex.Name]; !isVar {
			if cs, _ := e.class(ex); cs != "" {
				return []Mod{{class: cs}}
			}
		}
		// a captured variable
		if e.onDemand != nil {
			if a := x.freeCell(e, ex.Name); a != nil {
				return []Mod{{class: a.class, ref: a.ref}}
			}
		}
		panic("modifies " + ex.Name)
	}
	if ex.Op == "field" {
		b := ex.Args[0]
		if cl.Where != nil || isClassExpr(ex, e) {
			cs, _ := e.class(ex)
			m := Mod{class: cs}
			if cl.Where != nil {
				m.where = whereFn(cl, e, cs)
			}
			return []Mod{m}
		}
		v := e.eval(b)
		pt, ok := v.Ty.Go.Underlying().(*types.Pointer)
		if !ok {
			// field of an embedded struct: p.Amount.Quantity
			if b.Op == "field" {
				bb := e.eval(b.Args[0])
				if bpt, ok := bb.Ty.Go.Underlying().(*types.Pointer); ok {
					i := fieldIndex(bpt.Elem(), b.Name)
					ft := structOf(bpt.Elem()).Field(i).Type()
					j := fieldIndex(ft, ex.Name)
					return modsOf(SubRef(bb.T, i), ft, j)
				}
			}
			panic("modifies field of a value")
		}
		i := fieldIndex(pt.Elem(), ex.Name)
		if i < 0 {
			panic("modifies: no field " + ex.Name)
		}
		return modsOf(v.T, pt.Elem(), i)
	}
	if ex.Op == "call" && ex.Args[0].Name == "entries" { // entries(m): contents of a map
		v := e.eval(ex.Args[1])
		m := v.Ty.Go.Underlying().(*types.Map)
		return []Mod{{class: mapClass(m, "dom"), ref: v.T}, {class: mapClass(m, "val"), ref: v.T}, {class: mapClass(m, "card"), ref: v.T}}
	}
	if ex.Op == "call" && ex.Args[0].Name == "maps" { // maps(T): all maps of a type  maps(map[..]..)
		panic("maps")
	}
	if ex.Op == "deref" {
		v := e.eval(ex.Args[0])
		pt := v.Ty.Go.Underlying().(*types.Pointer)
		if isStructVal(pt.Elem()) {
			var ms []Mod
			for i := 0; i < structOf(pt.Elem()).NumFields(); i++ {
				ms = append(ms, modsOf(v.T, pt.Elem(), i)...)
			}
			return ms
		}
		return []Mod{{class: cellClass(pt.Elem()), ref: v.T}}
	}
	if ex.Op == "call" && ex.Args[0].Name == "mapclass" { // mapclass(m) [where r: ..]: all maps of m's type
		v := e.eval(ex.Args[1])
		m := v.Ty.Go.Underlying().(*types.Map)
		var ms []Mod
		for _, p := range []string{"dom", "val", "card"} {
			cs := mapClass(m, p)
			md := Mod{class: cs}
			if cl.Where != nil {
				md.where = whereFn(cl, e, cs)
			}
			ms = append(ms, md)
		}
		return ms
	}
	panic("modifies expression")
}

func isClassExpr(ex *Expr, e *SEnv) bool {
	b := ex.Args[0]
	if b.Op != "ident" {
		return false
	}
	if _, isVar := e.vars[b.Name]; isVar {
		return false
	}
	return e.global(b.Name, ex.Name) != ""
}

func whereFn(cl *Clause, e *SEnv, class string) func(*Term) *Term {
	ty := &SType{Sort: SRef}
	if i := strings.LastIndex(class, "."); i >= 0 && !strings.Contains(class, ":") {
		if o := resolveTypeMaybe(class[:i]); o != nil {
			ty = goST(types.NewPointer(o))
		}
	}
	return func(r *Term) *Term {
		return e.with(cl.WVar, TV{r, ty}).eval(cl.Where).T
	}
}

func resolveTypeMaybe(s string) (t types.Type) {
	defer func() {
		if recover() != nil {
			t = nil
		}
	}()
	return resolveType(s, "").Go
}

// T or pkg.T
func typeRef(x *Expr) string {
	switch {
	case x.Op == "ident":
		return x.Name
	case x.Op == "field" && x.Args[0].Op == "ident":
		return x.Args[0].Name + "." + x.Name
	}
	return ""
}

func resolveSpecTypeMaybe(s, pkg string) (t types.Type) {
	defer func() {
		if recover() != nil {
			t = nil
		}
	}()
	return resolveType(s, pkg).Go
}

func modsOf(ref *Term, t types.Type, i int) []Mod {
	ft := structOf(t).Field(i).Type()
	if isStructVal(ft) {
		var ms []Mod
		for j := 0; j < structOf(ft).NumFields(); j++ {
			ms = append(ms, modsOf(SubRef(ref, i), ft, j)...)
		}
		return ms
	}
	return []Mod{{class: fieldClass(t, i), ref: ref}}
}

// freeCell resolves the name of a captured variable of the contract's closure
func (x *FnRun) freeCell(e *SEnv, name string) *Addr {
	for _, b := range x.capt {
		if b.name == name && b.addr != nil {
			return b.addr
		}
	}
	return nil
}

type capture struct {
	name string
	addr *Addr
	val  Val
	ty   types.Type
}

func (x *FnRun) captured(e *SEnv, name string) (TV, bool) {
	for _, b := range x.capt {
		if b.name == name {
			if b.addr != nil {
				return TV{Select(e.st.get(b.addr.class), b.addr.ref), goST(b.addr.typ)}, true
			}
			if b.val.T != nil {
				return TV{b.val.T, goST(b.ty)}, true
			}
		}
	}
	return TV{}, false
}

// applyContract checks the precondition, havocs the frame and assumes the postcondition
func (x *FnRun) applyContract(fr *Frame, st *State, c *Contract, fn *ssa.Function, sig *types.Signature, args []Val, pos token.Pos, k func(*State, Val), self *Term) {
	ts := x.sigTypes(fn, sig, args)
	if len(c.Params) > len(args) {
		unsup("contract of %s has %d parameters, call has %d", c.Key, len(c.Params), len(args))
	}
	vars := map[string]TV{}
	if c.Kind == "local" {
		for n, v := range x.vars {
			vars[n] = v
		}
	}
	if self != nil {
		vars["self"] = TV{self, &SType{Sort: SFn}}
	}
	for i, p := range c.Params {
		if p.Name == "_" {
			continue
		}
		vars[p.Name] = TV{x.term(args[i]), goST(ts[i])}
	}
	pre := st.clone()
	e := &SEnv{db: x.v.db, pkg: c.Pkg, vars: vars, st: pre, old: x.entry}
	if c.Kind == "local" {
		e.onDemand = x.captured
	}
	for i, cl := range c.get("requires") {
		g := x.evalClause(c, cl, e)
		nm := cl.Label
		if nm == "" {
			nm = fmt.Sprint("requires ", i)
		}
		x.oblige(st, "requires", "precondition of "+c.Key+": "+nm+": "+cl.Src, x.v.always(x.tagsFor(cl)), g, x.pos(pos))
		st.assume(g)
	}
	// termination of recursion
	if fn != nil && x.v.sameSCC(fn, x.fn) && c.Kind != "local" || c.Kind == "local" && x.inLocal == c {
		x.checkDecreases(st, c, e, pos)
	}
	if c.Flags["noreturn"] {
		return
	}
	mods := x.mods0(c, e)
	if !c.Flags["pure"] {
		st.havoc("ghost:alloc")
		i := BoundVar("i", SInt)
		if w := newIs(c, i); w != nil {
			st.assume(Forall([]*Term{i}, Imp(And(Le(pre.alloc(), i), Lt(i, st.alloc())), w), []*Term{App("tyof", SInt, i)}))
		}
		for _, r := range x.recs {
			r.alloc = true
		}
	}
	// classes first (whole or restricted), then single locations
	var done = map[string]bool{}
	var cs []string
	byClass := map[string][]Mod{}
	for _, m := range mods {
		if !done[m.class] {
			done[m.class] = true
			cs = append(cs, m.class)
		}
		byClass[m.class] = append(byClass[m.class], m)
	}
	sort.Strings(cs)
	for _, cl := range cs {
		ms := byClass[cl]
		if isDirectClass(cl) {
			st.heap[cl] = Fresh("hv$"+mangleClass(cl), classSort[cl])
			x.record(cl, nil)
			continue
		}
		whole := false
		for _, m := range ms {
			whole = whole || m.ref == nil
		}
		if whole {
			old := st.get(cl)
			n := st.havoc(cl)
			x.record(cl, nil)
			r := BoundVar("r", SRef)
			var perm []*Term
			for _, m := range ms {
				if m.ref != nil {
					perm = append(perm, Eq(r, m.ref))
				} else if m.where != nil {
					perm = append(perm, m.where(r))
				} else {
					perm = append(perm, True)
				}
			}
			g := Imp(And(Lt(Rid(r), pre.alloc()), Not(Or(perm...))), Eq(Select(n, r), Select(old, r)))
			if g != True {
				st.assume(Forall([]*Term{r}, g, []*Term{Select(n, r)}))
			}
			x.wfHeap(st, cl)
			continue
		}
		_, vs := classSort[cl].ArrParts()
		seen := map[*Term]bool{}
		for _, m := range ms {
			if seen[m.ref] {
				continue
			}
			seen[m.ref] = true
			v := Fresh("hv", vs)
			if g := classGo[cl]; g != nil && !strings.HasPrefix(cl, "map:") {
				st.assume(wellTypedDeep(st, v, g))
			}
			st.heap[cl] = Store(st.get(cl), m.ref, v)
			x.record(cl, m.ref)
		}
	}
	// results
	var res []Val
	post := &SEnv{db: x.v.db, pkg: c.Pkg, vars: map[string]TV{}, st: st, old: pre, onDemand: e.onDemand}
	for n, v := range vars {
		post.vars[n] = v
	}
	ens := x.assumable(c, c.get("ensures"))
	usedDef := map[*Clause]bool{}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		name := ""
		if i < len(c.Results) {
			name = c.Results[i].Name
		}
		var r *Term
		if name != "" {
			for _, cl := range ens {
				if cl.E.Op == "binary" && cl.E.Name == "==" && cl.E.Args[0].Op == "ident" && cl.E.Args[0].Name == name && !usedDef[cl] && !mentions(cl.E.Args[1], c.Results, vars) {
					v := post.eval(cl.E.Args[1])
					if v.Ty == nilST {
						v.T = coerceNil(goST(t))
					}
					if v.T.sort == sortOf(t) {
						r = v.T
						usedDef[cl] = true
						break
					}
				}
			}
		}
		if r == nil {
			r = Fresh("res", sortOf(t))
			st.assume(wellTypedDeep(st, r, t))
		}
		v := x.fromTerm(r, t)
		for _, cl := range c.get("fresh") {
			for _, w := range strings.Fields(cl.Src) {
				if w == name {
					v.Own = &Own{kind: "fresh"}
				}
			}
		}
		res = append(res, v)
		if name != "" {
			post.vars[name] = TV{r, goST(t)}
		}
	}
	for _, cl := range ens {
		if usedDef[cl] {
			continue
		}
		st.assume(x.evalClause(c, cl, post))
	}
	for _, cl := range c.get("assume") {
		st.assume(x.evalClause(c, cl, post))
	}
	// the record kept of calls made: ghost variables that are extended where the function is called
	if trs := c.get("trace"); len(trs) > 0 {
		var cls []string
		var ts []*Term
		for _, cl := range trs {
			class, _ := post.class(&Expr{Op: "ident", Name: cl.Label})
			cls = append(cls, class)
			ts = append(ts, post.eval(cl.E).T)
		}
		for i, cl := range cls {
			st.heap[cl] = ts[i]
			x.record(cl, nil)
		}
	}
	if c.Trusted && c.Kind != "func" {
		x.assume[c.Kind+" "+c.Key+": assumed contract"] = true
	} else if c.Trusted {
		x.assume["trusted "+c.Key] = true
	}
	if c.Kind == "funcval" {
		x.assume["function value "+c.Key+" satisfies its contract"] = true
	}
	if st.dead() {
		return
	}
	k(st, sigResult(sig, res))
}

func mentions(x *Expr, ps []Param, vars map[string]TV) bool {
	if x == nil {
		return false
	}
	if x.Op == "ident" {
		for _, p := range ps {
			if p.Name == x.Name {
				return true
			}
		}
	}
	for _, a := range x.Args {
		if mentions(a, ps, vars) {
			return true
		}
	}
	return false
}

func (x *FnRun) evalClause(c *Contract, cl *Clause, e *SEnv) (r *Term) {
	defer func() {
		if p := recover(); p != nil {
			if u, ok := p.(unsupported); ok {
				panic(u)
			}
			unsup("contract %s (%s:%d) clause %q: %v", c.Key, c.File, c.Line, cl.Src, p)
		}
	}()
	return e.eval(cl.E).T
}

func (x *FnRun) tagsFor(cl *Clause) []string {
	if len(cl.Tags) > 0 {
		return cl.Tags
	}
	if x.c != nil {
		return x.c.Props
	}
	return nil
}

// always: obligations every property relies on when a single property is decided
func (v *Verifier) always(tags []string) []string {
	if v.strict {
		return []string{"*"}
	}
	return tags
}

// assumable: when a single property is decided, only those postconditions of a callee are
// assumed which the same run discharges, or which are lent to the property by another check
func (x *FnRun) assumable(c *Contract, cls []*Clause) []*Clause {
	if !x.v.strict || c.Kind != "func" || c.Trusted {
		return cls
	}
	var r []*Clause
	for _, cl := range cls {
		tags := cl.Tags
		if len(tags) == 0 {
			tags = c.Props
		}
		if x.v.wants(tags) {
			r = append(r, cl)
		} else if x.v.wants(c.Lend) {
			r = append(r, cl)
			x.assume["postconditions of "+c.Key+" are discharged by the check of "+strings.Join(tags, ", ")] = true
		}
	}
	return r
}

func (x *FnRun) checkDecreases(st *State, c *Contract, e *SEnv, pos token.Pos) {
	ds := c.get("decreases")
	if c.Flags["unmeasured"] {
		x.assume["the recursion of "+c.Key+" ends: the accounts beneath an account are finite in depth"] = true
		return
	}
	if len(ds) == 0 || x.measure0 == nil {
		x.oblige(st, "decreases", "recursion through "+c.Key+" has a decreasing measure", []string{"C23"}, False, x.pos(pos))
		return
	}
	m := x.evalClause(c, ds[0], e)
	x.oblige(st, "decreases", "recursion measure decreases at the call of "+c.Key, []string{"C23"}, And(Le(Int(0), m), Lt(m, x.measure0)), x.pos(pos))
}

// ---- specialised contracts for higher-order recursion

func (x *FnRun) localFor(fn *ssa.Function, args []Val) *Contract {
	if x.c == nil {
		return nil
	}
	key := funcKey(fn)
	for _, lc := range x.c.Locals {
		if lc.Pkg+"."+lc.Key == key || lc.Key == key {
			if !x.v.db.hasStale(lc, fn) {
				return lc
			}
		}
	}
	return nil
}

func (db *SpecDB) hasStale(c *Contract, fn *ssa.Function) bool {
	return len(c.Params) != len(fn.Params)
}

// verifyLocal proves the body of fn against a specialised contract with the given closure
func (x *FnRun) verifyLocal(fr *Frame, st *State, lc *Contract, fn *ssa.Function, args []Val) {
	// what is kept of the call's own path: the closure, its captured variables, and the
	// conditions on the parameters; the contract is verified anew whenever one of them differs
	id := lc.Key
	for _, a := range args {
		if a.Fn != nil {
			id += fmt.Sprintf("/%p", a.Fn.fn)
			for _, b := range a.Fn.bindings {
				if b.Addr != nil && b.Addr.ref != nil {
					id += fmt.Sprintf("/%p/%p", b.Addr.ref, Select(st.get(b.Addr.class), b.Addr.ref))
				} else if b.T != nil {
					id += fmt.Sprintf("/%p", b.T)
				}
			}
		}
	}
	params := map[*Term]bool{}
	for _, v := range x.vars {
		params[v.T] = true
	}
	kept := append([]*Term(nil), x.entry.pc...)
	have := map[*Term]bool{}
	for _, t := range kept {
		have[t] = true
	}
	suffix := x.localSuffix
	if x.inLocal != lc {
		suffix = ""
		for _, t := range st.pc {
			if !have[t] && overParams(t, params) {
				kept = append(kept, t)
				suffix += fmt.Sprintf("/%p", t)
			}
		}
	}
	id += suffix
	if x.localDone[id] || x.quiet > 0 {
		return
	}
	x.localDone[id] = true
	s0 := st.clone()
	s0.pc, s0.pcset = nil, map[*Term]bool{}
	for _, t := range kept {
		s0.assume(t)
	}
	// forget the heap, keep captured variables
	var cls []string
	for c := range s0.heap {
		cls = append(cls, c)
	}
	sort.Strings(cls)
	s0.havoc("ghost:alloc")
	for _, c := range cls {
		if c == "ghost:alloc" || strings.HasPrefix(c, "cell:") {
			continue
		}
		s0.havoc(c)
		x.wfHeap(s0, c)
	}
	// classes not touched so far are unknown too
	tag := fmt.Sprintf("HL%d$", len(x.localDone))
	var wfs []string
	s0.onHeap = func(c string) *Term {
		t := mk("var", tag+sanitize(mangleClass(c)), classSort[c])
		heapVarClass[t] = c
		wfs = append(wfs, c)
		return t
	}
	s0.loops = nil
	s0.pending = map[string]string{}
	s0.path = append(s0.path, "local "+lc.Key)
	vars := map[string]TV{}
	for n, v := range x.vars {
		vars[n] = v
	}
	nf := x.newFrame(fn, fr, nil, "local:", nil)
	for i, p := range fn.Params {
		var v Val
		if args[i].Fn != nil {
			v = args[i]
		} else {
			t := Fresh("l$"+p.Name(), sortOf(p.Type()))
			s0.assume(wellTypedDeep(s0, t, p.Type()))
			v = x.fromTerm(t, p.Type())
		}
		x.set(nf, s0, p, v)
		if i < len(lc.Params) {
			if v.T == nil {
				v.T = x.term(v)
			}
			vars[lc.Params[i].Name] = TV{v.T, goST(p.Type())}
		}
	}
	e0 := &SEnv{db: x.v.db, pkg: lc.Pkg, vars: vars, st: s0, onDemand: x.captured}
	for _, m := range x.mods0(lc, e0) {
		if !strings.HasPrefix(m.class, "cell:") {
			continue
		}
		if m.ref == nil {
			s0.havoc(m.class)
			continue
		}
		_, vs := classSort[m.class].ArrParts()
		nv := Fresh("hv", vs)
		s0.assume(wellTypedDeep(s0, nv, classGo[m.class]))
		s0.heap[m.class] = Store(s0.get(m.class), m.ref, nv)
	}
	for _, cl := range lc.get("requires") {
		s0.assume(x.evalClause(lc, cl, e0))
	}
	entry := s0.clone()
	sEntry, sVars, sMods, sMeas, sLocal, sC, sSuffix := x.entry, x.vars, x.mods, x.measure0, x.inLocal, x.c, x.localSuffix
	x.localSuffix = suffix
	defer func() {
		x.entry, x.vars, x.mods, x.measure0, x.inLocal, x.c, x.localSuffix = sEntry, sVars, sMods, sMeas, sLocal, sC, sSuffix
	}()
	c2 := *sC
	var lcs []*Clause
	for _, cl := range lc.Clauses {
		cl2 := *cl
		if x.v.strict && cl.Kind == "ensures" {
			cl2.Tags = []string{"*"}
		}
		lcs = append(lcs, &cl2)
	}
	c2.Clauses = append(lcs, invsOf(sC)...)
	if len(lc.Props) > 0 {
		c2.Props = lc.Props
	}
	x.c = &c2
	x.entry, x.vars, x.inLocal = entry, vars, lc
	e0.st, e0.old = entry, entry
	x.mods = x.mods0(lc, e0)
	x.measure0 = nil
	if d := lc.get("decreases"); len(d) > 0 {
		x.measure0 = x.evalClause(lc, d[0], e0)
	}
	nf.ret = func(s *State, res []Val) { x.exit(s, res, lc, vars, fn.Signature, false) }
	x.run(nf, fn.Blocks[0], 0, s0)
}

func invsOf(c *Contract) []*Clause {
	return append(c.get("inv"), c.get("measure")...)
}

// exit checks postconditions and the frame
func (x *FnRun) exit(st *State, res []Val, c *Contract, vars map[string]TV, sig *types.Signature, top bool) {
	if x.quiet > 0 {
		return
	}
	if st.dead() {
		return
	}
	x.exits++
	if top && x.cover == nil {
		x.cover = append([]*Term(nil), st.pc...)
	}
	e := &SEnv{db: x.v.db, pkg: c.Pkg, vars: map[string]TV{}, st: st, old: x.entry, entry: x.entry, onDemand: x.captured}
	for n, v := range vars {
		e.vars[n] = v
	}
	for i := 0; i < sig.Results().Len() && i < len(c.Results); i++ {
		e.vars[c.Results[i].Name] = TV{x.term(res[i]), goST(sig.Results().At(i).Type())}
	}
	x.useLemmas(st, c, e, "exit")
	for i, cl := range c.get("ensures") {
		g := x.evalClause(c, cl, e)
		nm := cl.Label
		if nm == "" {
			nm = fmt.Sprint("ensures ", i)
		}
		x.oblige(st, "ensures", c.Key+": "+nm+": "+cl.Src, x.tagsFor(cl), g, x.pos(x.fn.Pos()))
	}
	for loc := range st.pending {
		x.oblige(st, "append", "result of append to "+loc+" is stored back", x.v.always(x.c.Props), False, x.pos(x.fn.Pos()))
	}
	for i, v := range res {
		if i < len(c.Results) && v.T != nil && v.T.sort.IsSeq() {
			for _, cl := range c.get("fresh") {
				for _, w := range strings.Fields(cl.Src) {
					if w == c.Results[i].Name && !(v.Own != nil && (v.Own.kind == "fresh" && !st.consumed[v.Own] || v.Own.kind == "nil" || v.Own.kind == "fprefix")) {
						x.oblige(st, "append", "result "+w+" is a new slice", x.v.always(x.c.Props), False, x.pos(x.fn.Pos()))
					}
				}
			}
		}
	}
	if st.alloc() != x.entry.alloc() && newIs(c, Int(0)) != nil {
		i := Fresh("obj", SInt)
		x.oblige(st, "frame", "creates no objects", x.v.always(x.c.Props), Imp(And(Le(x.entry.alloc(), i), Lt(i, st.alloc())), newIs(c, i)), x.pos(x.fn.Pos()))
	}
	x.frameCheck(st, c)
}

func (x *FnRun) frameCheck(st *State, c *Contract) {
	if c.Flags["noframe"] {
		x.assume["frame of "+c.Key+" is not checked"] = true
		return
	}
	var cs []string
	for cl := range st.heap {
		cs = append(cs, cl)
	}
	sort.Strings(cs)
	byClass := map[string][]Mod{}
	for _, m := range x.mods {
		byClass[m.class] = append(byClass[m.class], m)
	}
	for _, cl := range cs {
		if cl == "ghost:alloc" {
			continue
		}
		n, o := st.get(cl), x.entry.get(cl)
		if n == o {
			continue
		}
		ms := byClass[cl]
		if isDirectClass(cl) {
			if len(ms) == 0 {
				x.oblige(st, "frame", "does not modify "+cl, x.v.always(x.c.Props), Eq(n, o), x.pos(x.fn.Pos()))
			}
			continue
		}
		r := Fresh("frame$r", SRef)
		var perm []*Term
		skip := false
		for _, m := range ms {
			if m.ref == nil && m.where == nil {
				skip = true
			} else if m.ref != nil {
				perm = append(perm, Eq(r, m.ref))
			} else {
				perm = append(perm, m.where(r))
			}
		}
		if skip {
			continue
		}
		// fast path: a chain of stores to new or permitted objects
		t, ok := n, true
		for t.op == "store" && t != o {
			ref := t.args[1]
			fine := false
			if s, _, isA := allocSeq(Rid(ref)); isA {
				if s0, _, ok0 := allocSeq(x.entry.alloc()); ok0 && s >= s0 {
					fine = true
				}
			}
			for _, m := range ms {
				if m.ref == ref {
					fine = true
				}
			}
			if !fine {
				ok = false
				break
			}
			t = t.args[0]
		}
		if ok && t == o {
			continue
		}
		x.oblige(st, "frame", "modifies only the allowed objects of "+cl, x.v.always(x.c.Props), Imp(And(Lt(Int(0), Rid(r)), Lt(Rid(r), x.entry.alloc()), Not(Or(perm...))), Eq(Select(n, r), Select(o, r))), x.pos(x.fn.Pos()))
	}
}

// useLemmas instantiates "use lemma(args) [when cond] at place"
func (x *FnRun) useLemmas(st *State, c *Contract, e *SEnv, place string) {
	for _, cl := range c.get("use") {
		at := cl.Label
		if at == "" {
			at = "exit"
		}
		if at != place {
			continue
		}
		f := x.v.instLemma(cl, e)
		if f != nil {
			st.assume(f)
		}
	}
}

// ---- builtins

// lengths of real slices and strings are ints
var maxInt = Int(1<<63 - 1)

func (x *FnRun) builtin(fr *Frame, st *State, name string, call *ssa.CallCommon, args []Val, pos token.Pos, k func(*State, Val)) {
	switch name {
	case "len":
		v := args[0]
		t := call.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Map:
			c := Select(st.get(mapClass(u, "card")), v.T)
			st.assume(Le(Int(0), c))
			dom := Select(st.get(mapClass(u, "dom")), v.T)
			x.cardFacts(st, u, dom, c)
			k(st, Val{T: Ite(Eq(v.T, Nil), Int(0), c)})
			return
		case *types.Basic:
			if x.checked() {
				st.assume(Le(SLen(v.T), maxInt))
			}
			k(st, Val{T: SLen(v.T)})
			return
		case *types.Slice:
			if x.checked() {
				st.assume(Le(SeqLen(v.T), maxInt))
			}
			k(st, Val{T: SeqLen(v.T)})
			return
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				k(st, Val{T: Int(a.Len())})
				return
			}
		case *types.Array:
			k(st, Val{T: Int(u.Len())})
			return
		}
	case "cap":
		r := Fresh("cap", SInt)
		st.assume(Le(SeqLen(args[0].T), r))
		k(st, Val{T: r})
		return
	case "append":
		x.doAppend(st, args, pos, k)
		return
	case "delete":
		m := call.Args[0].Type().Underlying().(*types.Map)
		if args[0].T == Nil {
			k(st, Val{})
			return
		}
		x.mapDeleteMaybeNil(st, m, args[0].T, x.term(args[1]))
		k(st, Val{})
		return
	case "print", "println":
		k(st, Val{})
		return
	case "ssa:wrapnilchk":
		x.nonNil(st, x.term(args[0]), "wrapper", pos)
		k(st, args[0])
		return
	case "min", "max":
		a, b := args[0].T, args[1].T
		if name == "min" {
			k(st, Val{T: Ite(Le(a, b), a, b)})
		} else {
			k(st, Val{T: Ite(Le(a, b), b, a)})
		}
		return
	}
	unsup("builtin %s", name)
}

// deleting from a nil map does nothing
func (x *FnRun) mapDeleteMaybeNil(st *State, m *types.Map, ref, k *Term) {
	x.mapDelete(st, m, ref, k)
}

// cardFacts relates the cardinality of a map to its domain
func (x *FnRun) cardFacts(st *State, m *types.Map, dom, card *Term) {
	ks := sortOf(m.Key())
	b := BoundVar("k", ks)
	pats := [][]*Term{}
	if s := Select(dom, b); s.op == "select" {
		pats = append(pats, []*Term{s})
	}
	st.assume(Imp(Eq(card, Int(0)), Forall([]*Term{b}, Not(Select(dom, b)), pats...)))
	w := Fresh("witness", ks)
	st.assume(Imp(Lt(Int(0), card), Select(dom, w)))
	// a singleton has a unique member
	b2 := BoundVar("k", ks)
	if s := Select(dom, b2); s.op == "select" {
		st.assume(Imp(Eq(card, Int(1)), Forall([]*Term{b2}, Imp(Select(dom, b2), Eq(b2, w)), []*Term{s})))
	}
	// and a set with one known member that is not alone has another
	w2 := Fresh("witness", ks)
	st.assume(Imp(Lt(Int(1), card), And(Select(dom, w2), Not(Eq(w, w2)))))
}

func (x *FnRun) doAppend(st *State, args []Val, pos token.Pos, k func(*State, Val)) {
	a, b := args[0], args[1]
	bt := b.T
	if bt.sort == SStr { // append([]byte, string...)
		bt = App("bytesOfStr", SeqOf(SInt), bt)
	}
	r := Val{T: SeqApp(a.T, bt)}
	kind := "shared"
	if a.Own != nil {
		kind = a.Own.kind
	}
	if bt.op == "empty" {
		r.Own = a.Own
		k(st, r)
		return
	}
	switch kind {
	case "nil":
		r.Own = &Own{kind: "fresh"}
	case "fresh":
		if st.consumed[a.Own] {
			x.appendBad(st, "a slice that was stored elsewhere", pos)
		}
		r.Own = a.Own
	case "loc":
		st.pending[a.Own.loc] = x.pos(pos)
		r.Own = &Own{kind: "pending", loc: a.Own.loc}
	case "pending":
		r.Own = a.Own
	default:
		if a.T.op == "empty" {
			r.Own = &Own{kind: "fresh"}
			break
		}
		x.appendBad(st, "a slice whose array may be shared", pos)
		r.Own = &Own{kind: "fresh"}
	}
	k(st, r)
}

func (x *FnRun) appendBad(st *State, why string, pos token.Pos) {
	var props []string
	if x.c != nil {
		props = x.c.Props
	}
	x.oblige(st, "append", "append to "+why+" may overwrite elements seen elsewhere", x.v.always(props), False, x.pos(pos))
}

// overParams tells whether t speaks of nothing but the given constants
func overParams(t *Term, params map[*Term]bool) bool {
	if params[t] {
		return true
	}
	if t.op == "var" || len(t.args) == 0 && t.op != "int" && t.op != "bool" && t.op != "str" {
		return false
	}
	if len(t.bound) > 0 {
		return false
	}
	for _, a := range t.args {
		if !overParams(a, params) {
			return false
		}
	}
	return true
}
