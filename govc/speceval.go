package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"hash/fnv"
	"math/big"
	"sort"
	"strings"
)

type SType struct {
	Go   types.Type
	Sort Sort
	K, V *SType // math arrays
	dt   *SpecDT
}

type SpecDT struct {
	Name   string
	Fields []Param
	Types  []*SType
}

var specDTs = map[string]*SpecDT{}

type TV struct {
	T  *Term
	Ty *SType
}

func goST(t types.Type) *SType {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return &SType{Go: t, Sort: sortOf(t), V: goST(sl.Elem())}
	}
	return &SType{Go: t, Sort: sortOf(t)}
}

var stInt = goST(types.Typ[types.Int])
var stBool = goST(types.Typ[types.Bool])
var stStr = goST(types.Typ[types.String])
var stAny = &SType{Sort: SAny}

func resolveType(s, pkg string) *SType {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "[]"):
		e := resolveType(s[2:], pkg)
		r := &SType{Sort: SeqOf(e.Sort), V: e}
		if e.Go != nil {
			r.Go = types.NewSlice(e.Go)
		}
		return r
	case strings.HasPrefix(s, "set["):
		e := resolveType(s[4:len(s)-1], pkg)
		return &SType{Sort: ArrOf(e.Sort, SBool), K: e, V: stBool}
	case strings.HasPrefix(s, "amap["):
		i := strings.Index(s, "]")
		k, v := resolveType(s[5:i], pkg), resolveType(s[i+1:], pkg)
		return &SType{Sort: ArrOf(k.Sort, v.Sort), K: k, V: v}
	case strings.HasPrefix(s, "map["):
		i := strings.Index(s, "]")
		k, v := resolveType(s[4:i], pkg), resolveType(s[i+1:], pkg)
		return goST(types.NewMap(k.Go, v.Go))
	case strings.HasPrefix(s, "*"):
		e := resolveType(s[1:], pkg)
		return goST(types.NewPointer(e.Go))
	}
	switch s {
	case "int", "int64", "uint64", "bool", "string", "rune", "byte", "uint8", "float64", "int32":
		return goST(types.Universe.Lookup(s).Type())
	case "error":
		return goST(types.Universe.Lookup("error").Type())
	case "any":
		return goST(types.NewInterfaceType(nil, nil))
	case "func":
		return &SType{Sort: SFn}
	case "ref":
		return &SType{Sort: SRef}
	case "float":
		return goST(types.Typ[types.Float64])
	}
	if d := specDTs[s]; d != nil {
		return &SType{Sort: Sort("spec." + s), dt: d}
	}
	p, n := pkg, s
	if i := strings.Index(s, "."); i >= 0 {
		p, n = s[:i], s[i+1:]
	}
	tp := theProg.tpkgs[p]
	if tp == nil {
		panic("unknown package " + p + " in type " + s)
	}
	o := tp.Scope().Lookup(n)
	if o == nil {
		panic("unknown type " + s + " in package " + pkg)
	}
	return goST(o.Type())
}

type SEnv struct {
	db       *SpecDB
	pkg      string
	vars     map[string]TV
	st       *State
	old      *State
	entry    *State
	inOld    bool
	onDemand func(e *SEnv, name string) (TV, bool)
}

func (e *SEnv) with(name string, v TV) *SEnv {
	n := *e
	n.vars = make(map[string]TV, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

type nilMarker struct{}

var nilST = &SType{Sort: "nil"}

func coerceNil(ty *SType) *Term {
	switch {
	case ty.Sort == SRef:
		return Nil
	case ty.Sort == SAny:
		return AnyNil
	case ty.Sort == SFn:
		return FnNil
	case ty.Sort.IsSeq():
		return SeqEmpty(ty.Sort.Elem())
	}
	panic("nil for " + string(ty.Sort))
}

func (e *SEnv) eval(x *Expr) TV {
	switch x.Op {
	case "int":
		return TV{Int(x.N), stInt}
	case "str":
		return TV{Str(x.Name), stStr}
	case "ident":
		return e.ident(x.Name)
	case "emptyseq":
		ty := resolveType("[]"+x.Name, e.pkg)
		return TV{SeqEmpty(ty.Sort.Elem()), ty}
	case "seqlit":
		var ps []*Term
		var ety *SType
		for _, a := range x.Args {
			v := e.eval(a)
			ety = v.Ty
			ps = append(ps, SeqUnit(v.T))
		}
		ty := &SType{Sort: SeqOf(ety.Sort), V: ety}
		if ety.Go != nil {
			ty.Go = types.NewSlice(ety.Go)
		}
		return TV{SeqApp(ps...), ty}
	case "unary":
		v := e.eval(x.Args[0])
		if x.Name == "!" {
			return TV{Not(v.T), stBool}
		}
		return TV{Neg(v.T), stInt}
	case "binary":
		return e.binary(x)
	case "ite":
		c := e.eval(x.Args[0])
		a := e.eval(x.Args[1])
		b := e.eval(x.Args[2])
		if a.Ty == nilST {
			a = TV{coerceNil(b.Ty), b.Ty}
		}
		if b.Ty == nilST {
			b = TV{coerceNil(a.Ty), a.Ty}
		}
		return TV{Ite(c.T, a.T, b.T), a.Ty}
	case "let":
		v := e.eval(x.Args[0])
		return e.with(x.Name, v).eval(x.Args[1])
	case "deref":
		v := e.eval(x.Args[0])
		pt, ok := v.Ty.Go.Underlying().(*types.Pointer)
		if !ok {
			panic("deref of non-pointer")
		}
		return TV{loadAt(e.st, v.T, pt.Elem()), goST(pt.Elem())}
	case "forall", "exists":
		n := e
		var bound []*Term
		var guards []*Term
		for _, p := range x.Vars {
			ty := resolveType(p.Type, e.pkg)
			b := BoundVar(p.Name, ty.Sort)
			bound = append(bound, b)
			n = n.with(p.Name, TV{b, ty})
			if g := typeGuard(e.st, b, ty); g != True && !p.Any {
				guards = append(guards, g)
			}
		}
		body := n.eval(x.Args[0]).T
		var pats [][]*Term
		for _, tr := range x.Trigs {
			var p []*Term
			for _, t := range tr {
				p = append(p, n.eval(t).T)
			}
			pats = append(pats, p)
		}
		g := And(guards...)
		if x.Op == "forall" {
			return TV{Forall(bound, Imp(g, body), pats...), stBool}
		}
		return TV{Exists(bound, And(g, body), pats...), stBool}
	case "field":
		return e.field(x)
	case "index":
		v := e.eval(x.Args[0])
		i := e.eval(x.Args[1])
		if v.Ty.Go != nil {
			if m, ok := v.Ty.Go.Underlying().(*types.Map); ok {
				val := Select(e.st.get(mapClass(m, "val")), v.T)
				return TV{Select(val, i.T), goST(m.Elem())}
			}
			if b, ok := v.Ty.Go.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return TV{SAt(v.T, i.T), stInt}
			}
		}
		if v.Ty.Sort.IsArr() {
			return TV{Select(v.T, i.T), v.Ty.V}
		}
		if v.Ty.Sort.IsSeq() {
			return TV{SeqAt(v.T, i.T), elemST(v.Ty)}
		}
		panic("index of " + string(v.Ty.Sort))
	case "slice":
		v := e.eval(x.Args[0])
		t := v.T
		if v.Ty.Sort == SStr {
			lo, hi := Int(0), SLen(t)
			if x.Args[1] != nil {
				lo = e.eval(x.Args[1]).T
			}
			if x.Args[2] != nil {
				hi = e.eval(x.Args[2]).T
			}
			return TV{StrSub(t, lo, hi), v.Ty}
		}
		if x.Args[2] != nil {
			t = SeqTake(t, e.eval(x.Args[2]).T)
		}
		if x.Args[1] != nil {
			t = SeqDrop(t, e.eval(x.Args[1]).T)
		}
		return TV{t, v.Ty}
	case "all":
		// Class[*]: the whole heap array of a field
		c, ty := e.class(x.Args[0])
		return TV{e.st.get(c), &SType{Sort: classSort[c], K: &SType{Sort: SRef}, V: ty}}
	case "call":
		return e.call(x)
	}
	panic("eval " + x.Op)
}

func StrSub(t, lo, hi *Term) *Term {
	if lo == Int(0) && hi == SLen(t) {
		return t
	}
	if t.op == "str" && lo.isInt() && hi.isInt() {
		l, h := lo.n.Int64(), hi.n.Int64()
		if 0 <= l && l <= h && h <= int64(len(t.name)) {
			return Str(t.name[l:h])
		}
	}
	return App("ssub", SStr, t, lo, hi)
}

func elemST(t *SType) *SType {
	if t.V != nil {
		return t.V
	}
	return goST(t.Go.Underlying().(*types.Slice).Elem())
}

// class resolves T.f or pkg.T.f to a heap class
func (e *SEnv) class(x *Expr) (string, *SType) {
	if x.Op == "ident" {
		if g := e.db.Ghosts[x.Name]; g != nil {
			ty := resolveType(g.Type, g.Pkg)
			return ghostClass(g.Name, ty.Sort), ty
		}
		if gl := e.global(e.pkg, x.Name); gl != "" {
			return gl, goST(classGo[gl])
		}
	}
	if x.Op != "field" {
		panic("not a class: " + x.Op)
	}
	var tn string
	b := x.Args[0]
	if b.Op == "ident" {
		if e.global(b.Name, x.Name) != "" {
			c := e.global(b.Name, x.Name)
			return c, goST(classGo[c])
		}
		tn = b.Name
	} else if b.Op == "field" && b.Args[0].Op == "ident" {
		tn = b.Args[0].Name + "." + b.Name
	} else {
		panic("not a class")
	}
	ty := resolveType(tn, e.pkg)
	i := fieldIndex(ty.Go, x.Name)
	if i < 0 {
		panic("no field " + x.Name + " in " + tn)
	}
	c := fieldClass(ty.Go, i)
	return c, goST(classGo[c])
}

func (e *SEnv) global(pkg, name string) string {
	p := theProg.pkgs[pkg]
	if p == nil && theProg.tpkgs[pkg] != nil {
		p = theProg.prog.Package(theProg.tpkgs[pkg])
	}
	if p == nil {
		return ""
	}
	if g := p.Var(name); g != nil {
		return globalClass(g)
	}
	return ""
}

func (e *SEnv) ident(n string) TV {
	if v, ok := e.vars[n]; ok {
		return v
	}
	if e.onDemand != nil {
		if v, ok := e.onDemand(e, n); ok {
			return v
		}
	}
	switch n {
	case "true":
		return TV{True, stBool}
	case "false":
		return TV{False, stBool}
	case "nil":
		return TV{nil, nilST}
	case "allocated": // one more than the largest id of an object
		return TV{e.st.alloc(), stInt}
	}
	if v, ok := e.goConst(e.pkg, n); ok {
		return v
	}
	if g := e.db.Ghosts[n]; g != nil {
		ty := resolveType(g.Type, g.Pkg)
		return TV{e.st.get(ghostClass(g.Name, ty.Sort)), ty}
	}
	if gl := e.global(e.pkg, n); gl != "" {
		return TV{e.st.get(gl), goST(classGo[gl])}
	}
	panic("unknown identifier " + n)
}

func (e *SEnv) goConst(pkg, n string) (TV, bool) {
	tp := theProg.tpkgs[pkg]
	if tp == nil {
		return TV{}, false
	}
	if c, ok := tp.Scope().Lookup(n).(*types.Const); ok {
		return TV{constTerm(c.Val(), c.Type()), goST(c.Type())}, true
	}
	return TV{}, false
}

func constTerm(v constant.Value, t types.Type) *Term {
	if v == nil {
		return zeroOf(t)
	}
	switch v.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(v))
	case constant.String:
		if sortOf(t) == SStr || t.Underlying() == types.Typ[types.UntypedString] {
			return Str(constant.StringVal(v))
		}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return App("flit", SFloat, Str(v.ExactString()))
		}
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return BigInt(n)
	case constant.Float:
		return App("flit", SFloat, Str(v.ExactString()))
	}
	panic("constant " + v.String())
}

func (e *SEnv) field(x *Expr) TV {
	b := x.Args[0]
	if b.Op == "ident" {
		if _, isVar := e.vars[b.Name]; !isVar {
			if theProg.tpkgs[b.Name] != nil && e.db.Ghosts[b.Name] == nil && e.global(e.pkg, b.Name) == "" {
				if v, ok := e.goConst(b.Name, x.Name); ok {
					return v
				}
				if g := e.global(b.Name, x.Name); g != "" {
					return TV{e.st.get(g), goST(classGo[g])}
				}
				panic("unknown " + b.Name + "." + x.Name)
			}
		}
	}
	v := e.eval(b)
	if v.Ty.dt != nil {
		for i, f := range v.Ty.dt.Fields {
			if f.Name == x.Name {
				return TV{SelData(v.T, i), v.Ty.dt.Types[i]}
			}
		}
		panic("no field " + x.Name)
	}
	if v.Ty.Go == nil {
		panic("field " + x.Name + " of " + string(v.Ty.Sort))
	}
	t := v.Ty.Go
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		i := fieldIndex(pt.Elem(), x.Name)
		if i < 0 {
			panic(fmt.Sprintf("no field %s in %s", x.Name, pt.Elem()))
		}
		return TV{loadField(e.st, v.T, pt.Elem(), i), goST(structOf(pt.Elem()).Field(i).Type())}
	}
	i := fieldIndex(t, x.Name)
	if i < 0 {
		panic(fmt.Sprintf("no field %s in %s", x.Name, t))
	}
	return TV{SelData(v.T, i), goST(structOf(t).Field(i).Type())}
}

func structOf(t types.Type) *types.Struct { s, _ := repoStruct(t); return s }

// loadField reads field i of the struct of type t at ref
func loadField(st *State, ref *Term, t types.Type, i int) *Term {
	ft := structOf(t).Field(i).Type()
	if isStructVal(ft) {
		return loadAt(st, SubRef(ref, i), ft)
	}
	return Select(st.get(fieldClass(t, i)), ref)
}

// loadAt reads a whole value of type t stored at ref
func loadAt(st *State, ref *Term, t types.Type) *Term {
	if s, ok := repoStruct(t); ok {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, loadField(st, ref, t, i))
		}
		return MkData(sortOf(t), fs...)
	}
	return Select(st.get(cellClass(t)), ref)
}

// typeTag identifies the dynamic type of an object
var typeTags = map[string]int64{}

// typeTag numbers the types of objects: those of structs of the repository are negative
func typeTag(name string) *Term {
	n, ok := typeTags[name]
	if !ok {
		h := fnv.New32a()
		h.Write([]byte(name))
		n = int64(h.Sum32()%1000000) + 1
		if i := strings.IndexByte(name, '.'); i > 0 && theProg != nil && theProg.pkgs[name[:i]] != nil && name[0] != '[' && name[0] != '*' {
			n = -n
		}
		for _, m := range typeTags {
			if m == n {
				panic("type tags collide: " + name)
			}
		}
		typeTags[name] = n
	}
	return Int(n)
}

// newIs: what the flags of a contract say about the objects it creates
func newIs(c *Contract, i *Term) *Term {
	t := App("tyof", SInt, i)
	switch {
	case c.Flags["noalloc"]:
		return Eq(t, typeTag("array"))
	case c.Flags["norepo"] || c.Kind == "extern":
		// or structs that others hold by value, of which locals are made
		ok := Le(Int(0), t)
		for _, n := range sortedKeys(embeddedTypes) {
			ok = Or(ok, Eq(t, typeTag(n)))
		}
		return ok
	}
	ok := True
	for _, f := range sortedKeys(c.Flags) {
		if n, is := strings.CutPrefix(f, "never:"); is {
			ok = And(ok, Not(Eq(t, typeTag(n))))
		}
	}
	if ok != True {
		return ok
	}
	return nil
}

func TyOf(r *Term) *Term { return App("tyof", SInt, Rid(r)) }

// struct types stored by value inside other structs
var embeddedTypes = map[string]bool{}

func computeEmbedded() {
	for _, p := range theProg.pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st, ok := repoStruct(tn.Type()); ok {
					for i := 0; i < st.NumFields(); i++ {
						if isStructVal(st.Field(i).Type()) {
							embeddedTypes[typeName(st.Field(i).Type())] = true
						}
					}
				}
			}
		}
	}
}

// wellTyped: v is nil or refers to an allocated object of the pointed-to type
func wellTyped(st *State, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v == Nil {
			return True
		}
		if id := Rid(v); id.op != "rid" { // freshly allocated or sub-object: known
			if _, _, ok := allocSeq(id); ok {
				return True
			}
		}
		fs := []*Term{Lt(Int(0), Rid(v)), Lt(Rid(v), st.alloc())}
		if isStructVal(u.Elem()) && !embeddedTypes[typeName(u.Elem())] {
			fs = append(fs, Eq(TyOf(v), typeTag(typeName(u.Elem()))), Eq(Rpath(v), Int(0)))
		}
		return Or(Eq(v, Nil), And(fs...))
	case *types.Map:
		return Or(Eq(v, Nil), And(Lt(Int(0), Rid(v)), Lt(Rid(v), st.alloc()), Eq(TyOf(v), typeTag(typeName(u))), Eq(Rpath(v), Int(0))))
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			return And(Le(Int(0), v), Le(v, Int(255)))
		}
		if st.ranges && v.sort == SInt {
			return inRange(v, t)
		}
	}
	return True
}

// typeGuard: the range of a quantified variable
func typeGuard(st *State, b *Term, ty *SType) *Term {
	if ty.Go == nil {
		return True
	}
	if pt, ok := ty.Go.Underlying().(*types.Pointer); ok {
		fs := []*Term{Lt(Int(0), Rid(b)), Lt(Rid(b), st.alloc())}
		if isStructVal(pt.Elem()) && !embeddedTypes[typeName(pt.Elem())] {
			fs = append(fs, Eq(TyOf(b), typeTag(typeName(pt.Elem()))), Eq(Rpath(b), Int(0)))
		}
		return And(fs...)
	}
	return True
}

func (e *SEnv) binary(x *Expr) TV {
	op := x.Name
	a := e.eval(x.Args[0])
	if op == "in" {
		panic("in")
	}
	b := e.eval(x.Args[1])
	if a.Ty == nilST && b.Ty != nilST {
		a = TV{coerceNil(b.Ty), b.Ty}
	}
	if b.Ty == nilST && a.Ty != nilST {
		b = TV{coerceNil(a.Ty), a.Ty}
	}
	switch op {
	case "&&":
		return TV{And(a.T, b.T), stBool}
	case "||":
		return TV{Or(a.T, b.T), stBool}
	case "==>":
		return TV{Imp(a.T, b.T), stBool}
	case "<==>":
		return TV{Eq(a.T, b.T), stBool}
	case "==":
		return TV{Eq(a.T, b.T), stBool}
	case "!=":
		return TV{Not(Eq(a.T, b.T)), stBool}
	case "<":
		return TV{Lt(a.T, b.T), stBool}
	case "<=":
		return TV{Le(a.T, b.T), stBool}
	case ">":
		return TV{Gt(a.T, b.T), stBool}
	case ">=":
		return TV{Ge(a.T, b.T), stBool}
	case "+":
		if a.Ty.Sort == SStr {
			return TV{Cat(a.T, b.T), a.Ty}
		}
		return TV{Add(a.T, b.T), a.Ty}
	case "-":
		return TV{Sub(a.T, b.T), a.Ty}
	case "*":
		return TV{Mul(a.T, b.T), a.Ty}
	case "/":
		return TV{TDiv(a.T, b.T), a.Ty}
	case "%":
		return TV{TMod(a.T, b.T), a.Ty}
	case "++":
		if a.Ty.Sort == SStr {
			return TV{Cat(a.T, b.T), a.Ty}
		}
		return TV{SeqApp(a.T, b.T), a.Ty}
	}
	panic("operator " + op)
}

func (e *SEnv) call(x *Expr) TV {
	f := x.Args[0]
	args := x.Args[1:]
	if f.Op != "ident" {
		panic("call of non-identifier")
	}
	ev := func(i int) TV { return e.eval(args[i]) }
	switch f.Name {
	case "old":
		if e.old == nil {
			panic("old() not available here")
		}
		n := *e
		n.st = e.old
		n.inOld = true
		return n.eval(args[0])
	case "entry":
		if e.entry == nil {
			panic("entry() not available here")
		}
		n := *e
		n.st = e.entry
		return n.eval(args[0])
	case "len":
		v := ev(0)
		if v.Ty.Sort == SStr {
			return TV{SLen(v.T), stInt}
		}
		if v.Ty.Go != nil {
			if m, ok := v.Ty.Go.Underlying().(*types.Map); ok {
				return TV{Select(e.st.get(mapClass(m, "card")), v.T), stInt}
			}
		}
		return TV{SeqLen(v.T), stInt}
	case "has":
		v, k := ev(0), ev(1)
		m := v.Ty.Go.Underlying().(*types.Map)
		return TV{Select(Select(e.st.get(mapClass(m, "dom")), v.T), k.T), stBool}
	case "dom":
		v := ev(0)
		m := v.Ty.Go.Underlying().(*types.Map)
		return TV{Select(e.st.get(mapClass(m, "dom")), v.T), &SType{Sort: ArrOf(sortOf(m.Key()), SBool), K: goST(m.Key()), V: stBool}}
	case "vals":
		v := ev(0)
		m := v.Ty.Go.Underlying().(*types.Map)
		return TV{Select(e.st.get(mapClass(m, "val")), v.T), &SType{Sort: ArrOf(sortOf(m.Key()), sortOf(m.Elem())), K: goST(m.Key()), V: goST(m.Elem())}}
	case "store":
		a, k, v := ev(0), ev(1), ev(2)
		return TV{Store(a.T, k.T, v.T), a.Ty}
	case "emptyset":
		ty := resolveType("set["+typeText(args[0])+"]", e.pkg)
		k, _ := ty.Sort.ArrParts()
		return TV{ConstArr(k, False), ty}
	case "alloc":
		v := ev(0)
		return TV{And(Lt(Int(0), Rid(v.T)), Lt(Rid(v.T), e.st.alloc())), stBool}
	case "allocd": // allocated and of its static type
		v := ev(0)
		return TV{typeGuard(e.st, v.T, v.Ty), stBool}
	case "fresh":
		v := ev(0)
		return TV{And(Le(e.old.alloc(), Rid(v.T)), Lt(Rid(v.T), e.st.alloc())), stBool}
	case "addr":
		// address of a nested struct field
		a := args[0]
		b := e.eval(a.Args[0])
		pt := b.Ty.Go.Underlying().(*types.Pointer)
		i := fieldIndex(pt.Elem(), a.Name)
		return TV{SubRef(b.T, i), goST(types.NewPointer(structOf(pt.Elem()).Field(i).Type()))}
	case "at":
		a, i := ev(0), ev(1)
		return TV{SeqAt(a.T, i.T), elemST(a.Ty)}
	case "box":
		v := ev(0)
		return TV{Box(v.T, v.Ty.Go), stAny}
	case "whole": // the reference is to an object of its own, not to a part of one
		return TV{Eq(Rpath(ev(0).T), Int(0)), stBool}
	case "id": // object identity of a reference
		return TV{Rid(ev(0).T), stInt}
	case "ite":
		c, a, b := ev(0), ev(1), ev(2)
		return TV{Ite(c.T, a.T, b.T), a.Ty}
	case "itof": // conversion to float64
		return TV{App("itof", SFloat, ev(0).T), goST(types.Typ[types.Float64])}
	case "ftoi": // conversion of a float64 to an integer
		return TV{App("ftoi", SInt, ev(0).T), stInt}
	case "flit": // the float64 constant spelt so
		return TV{App("flit", SFloat, ev(0).T), goST(types.Typ[types.Float64])}
	case "strlt": // the byte-wise order of strings
		return TV{App("strlt", SBool, ev(0).T, ev(1).T), stBool}
	case "min":
		a, b := ev(0), ev(1)
		return TV{Ite(Le(a.T, b.T), a.T, b.T), a.Ty}
	case "max":
		a, b := ev(0), ev(1)
		return TV{Ite(Ge(a.T, b.T), a.T, b.T), a.Ty}
	case "zero":
		ty := resolveType(typeText(args[0]), e.pkg)
		return TV{zeroOf(ty.Go), ty}
	case "apply": // apply(ret, f, args...): result of a pure function value
		ty := resolveType(typeText(args[0]), e.pkg)
		f := ev(1)
		as := []*Term{f.T}
		for i := 2; i < len(args); i++ {
			as = append(as, ev(i).T)
		}
		return TV{App(applyName(as, ty.Sort), ty.Sort, as...), ty}
	case "int":
		return TV{ev(0).T, stInt}
	case "typed": // typed(v, T): reinterpret a reference
		v := ev(0)
		ty := resolveType(typeText(args[1]), e.pkg)
		return TV{v.T, ty}
	}
	if d := specDTs[f.Name]; d != nil {
		var as []*Term
		for i := range args {
			as = append(as, ev(i).T)
		}
		return TV{MkData(Sort("spec."+d.Name), as...), &SType{Sort: Sort("spec." + d.Name), dt: d}}
	}
	fn := e.db.Fns[f.Name]
	if fn == nil {
		panic("unknown function " + f.Name)
	}
	if len(args) != len(fn.Params) {
		panic("wrong number of arguments for " + f.Name)
	}
	var as []TV
	for i := range args {
		v := ev(i)
		pty := resolveType(fn.Params[i].Type, fn.Pkg)
		if v.Ty == nilST {
			v = TV{coerceNil(pty), pty}
		}
		if v.T.sort != pty.Sort {
			panic(fmt.Sprintf("argument %d of %s: have %s, want %s", i, f.Name, v.T.sort, pty.Sort))
		}
		v.Ty = pty
		as = append(as, v)
	}
	return e.db.apply(fn, as, e.st, e.old)
}

func applyName(as []*Term, ret Sort) string {
	n := "apply"
	for _, a := range as[1:] {
		n += "_" + mangle(string(a.sort))
	}
	return n + "_" + mangle(string(ret))
}

func typeText(x *Expr) string {
	switch x.Op {
	case "ident":
		return x.Name
	case "field":
		return typeText(x.Args[0]) + "." + x.Name
	case "deref":
		return "*" + typeText(x.Args[0])
	case "emptyseq":
		return "[]" + x.Name
	}
	panic("type expression")
}

// apply evaluates a spec function in a heap
func (db *SpecDB) apply(fn *SpecFn, as []TV, st, old *State) TV {
	ret := resolveType(fn.Ret, fn.Pkg)
	if fn.Body != nil && !fn.Rec && !fn.Opaque {
		e := &SEnv{db: db, pkg: fn.Pkg, vars: map[string]TV{}, st: st, old: old}
		for i, p := range fn.Params {
			e.vars[p.Name] = as[i]
		}
		r := e.eval(fn.Body)
		if r.Ty == nilST {
			r.T = coerceNil(ret)
		}
		if r.T.sort != ret.Sort {
			panic(fmt.Sprintf("spec %s returns %s, declared %s", fn.Name, r.T.sort, ret.Sort))
		}
		if ret.Sort == SBool {
			noteOrigin(fn.Name, r.T)
		}
		return TV{r.T, ret}
	}
	var ts []*Term
	for _, c := range fn.Reads {
		ts = append(ts, st.get(c))
	}
	for _, a := range as {
		ts = append(ts, a.T)
	}
	name := fn.Name
	return TV{App(name, ret.Sort, ts...), ret}
}

// prepare finds recursive spec functions, infers the heap classes they read, and registers definitions
func (db *SpecDB) prepare() {
	for _, c := range db.DTs {
		d := &SpecDT{Name: c.Key, Fields: c.Params}
		specDTs[c.Key] = d
		dd := &Datatype{Name: Sort("spec." + c.Key)}
		datatypes[dd.Name] = dd
		for _, p := range c.Params {
			ty := resolveType(p.Type, c.Pkg)
			d.Types = append(d.Types, ty)
			dd.Fields = append(dd.Fields, DField{p.Name, ty.Sort})
		}
	}
	// recursion
	calls := map[string]map[string]bool{}
	for _, f := range db.FnList {
		m := map[string]bool{}
		if f.Body != nil {
			collectCalls(f.Body, m)
		}
		calls[f.Name] = m
	}
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		var rec func(n string) bool
		rec = func(n string) bool {
			for c := range calls[n] {
				if c == to {
					return true
				}
				if db.Fns[c] != nil && !seen[c] {
					seen[c] = true
					if rec(c) {
						return true
					}
				}
			}
			return false
		}
		return rec(from)
	}
	for _, f := range db.FnList {
		f.Rec = f.Body != nil && reach(f.Name, f.Name)
	}
	// reads, to a fixpoint
	for changed := true; changed; {
		changed = false
		for _, f := range db.FnList {
			if f.Body == nil || !(f.Rec || f.Opaque) {
				continue
			}
			rd, _, _ := db.evalBody(f)
			if strings.Join(rd, ",") != strings.Join(f.Reads, ",") {
				f.Reads = rd
				changed = true
			}
			funcDecls = map[string]*FuncDecl{"anynil": funcDecls["anynil"], "fnnil": funcDecls["fnnil"], "timeZero": funcDecls["timeZero"]}
		}
	}
	for _, f := range db.FnList {
		if f.Body == nil || !(f.Rec || f.Opaque) {
			continue
		}
		_, params, body := db.evalBody(f)
		if f.Opaque && !f.Rec {
			// non-recursive definition as an axiom with pattern
			var ts []*Term
			ts = append(ts, params...)
			a := App(f.Name, body.sort, ts...)
			_ = a
		}
		recFuns[f.Name] = &RecFun{f.Name, params, body, f.Sealed}
	}
}

// definition is the equation of a sealed spec function, for all heaps and arguments
func (db *SpecDB) definition(name string) *Term {
	rf := recFuns[name]
	if rf == nil || !rf.Sealed {
		unsup("reveal of %s, which is not sealed", name)
	}
	m := map[*Term]*Term{}
	var bs []*Term
	for i, p := range rf.Params {
		b := BoundVar(fmt.Sprintf("rv%d", i), p.sort)
		bs = append(bs, b)
		m[p] = b
	}
	body := Subst(rf.Body, m)
	a := App(name, body.sort, bs...)
	d := Forall(bs, Eq(a, body), []*Term{a})
	noteOrigin(name, d)
	return d
}

// originOf: the predicates whose unfolding gave a fact (a clause may be proved without them, see "hide")
var originOf = map[*Term]map[string]bool{}

func noteOrigin(name string, t *Term) {
	if t.op == "and" {
		for _, a := range t.args {
			noteOrigin(name, a)
		}
		return
	}
	if t.op != "forall" {
		return
	}
	m := originOf[t]
	if m == nil {
		m = map[string]bool{}
		originOf[t] = m
	}
	m[name] = true
}

// withoutFacts is t without the facts that come from the named predicates
func withoutFacts(t *Term, names map[string]bool) *Term {
	for n := range originOf[t] {
		if names[n] {
			return True
		}
	}
	switch t.op {
	case "and":
		var cs []*Term
		for _, a := range t.args {
			cs = append(cs, withoutFacts(a, names))
		}
		return And(cs...)
	case "=>":
		return Imp(t.args[0], withoutFacts(t.args[1], names))
	}
	return t
}

func (db *SpecDB) evalBody(f *SpecFn) (reads []string, params []*Term, body *Term) {
	st := newState()
	hv := map[string]*Term{}
	st.onHeap = func(c string) *Term {
		t := mk("var", "hp$"+f.Name+"$"+sanitize(mangleClass(c)), classSort[c])
		t.fv = map[*Term]bool{t: true}
		hv[c] = t
		return t
	}
	e := &SEnv{db: db, pkg: f.Pkg, vars: map[string]TV{}, st: st}
	var ps []*Term
	for _, p := range f.Params {
		ty := resolveType(p.Type, f.Pkg)
		b := mk("var", "pp$"+f.Name+"$"+p.Name, ty.Sort)
		b.fv = map[*Term]bool{b: true}
		ps = append(ps, b)
		e.vars[p.Name] = TV{b, ty}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				panic(fmt.Sprintf("spec %s: %v", f.Name, r))
			}
		}()
		r := e.eval(f.Body)
		ret := resolveType(f.Ret, f.Pkg)
		if r.Ty == nilST {
			r.T = coerceNil(ret)
		}
		if r.T.sort != ret.Sort {
			panic(fmt.Sprintf("body has sort %s, declared %s", r.T.sort, ret.Sort))
		}
		body = r.T
	}()
	for c := range hv {
		reads = append(reads, c)
	}
	sort.Strings(reads)
	for _, c := range reads {
		params = append(params, hv[c])
	}
	params = append(params, ps...)
	return
}

func collectCalls(x *Expr, m map[string]bool) {
	if x == nil {
		return
	}
	if x.Op == "call" && x.Args[0].Op == "ident" {
		m[x.Args[0].Name] = true
	}
	for _, a := range x.Args {
		collectCalls(a, m)
	}
}

// ---- boxing of values into interfaces

var boxTypes = map[string]types.Type{}

func Box(t *Term, ty types.Type) *Term {
	n := "box:" + typeName(types.Unalias(ty))
	boxTypes[n] = types.Unalias(ty)
	return App(n, SAny, t)
}

func sortedKeys(m map[string]bool) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}
