package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by name, repo packages
	modPath string
	tpkgs   map[string]*types.Package // every package seen, by name
	funcs   map[string]*ssa.Function  // by contract key
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedModule, Dir: dir, Tests: false}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}}
	for _, q := range ps {
		if len(q.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", q.PkgPath, q.Errors[0])
		}
		if q.Module != nil {
			p.modPath = q.Module.Path
		}
	}
	prog, pk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	var addT func(t *types.Package)
	addT = func(t *types.Package) {
		if p.tpkgs[t.Name()] != nil && p.tpkgs[t.Name()] == t {
			return
		}
		if p.tpkgs[t.Name()] == nil || strings.HasPrefix(t.Path(), p.modPath) {
			p.tpkgs[t.Name()] = t
		}
	}
	for _, q := range pk {
		p.pkgs[q.Pkg.Name()] = q
		addT(q.Pkg)
		for _, im := range q.Pkg.Imports() {
			addT(im)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inRepo(fn) {
			p.funcs[funcKey(fn)] = fn
		}
	}
	return p, nil
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() == p.modPath || strings.HasPrefix(f.Pkg.Pkg.Path(), p.modPath+"/")
	}
	// wrappers / bound methods of repo methods
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path() == p.modPath || strings.HasPrefix(o.Pkg().Path(), p.modPath+"/")
	}
	return false
}

func pkgNameOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name()
	}
	if fn.Parent() != nil {
		return pkgNameOf(fn.Parent())
	}
	return ""
}

// funcKey is how contracts name a function: pkg.Name, pkg.(*T).Name, pkg.T.Name, and parent$n for closures
func funcKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		pk := funcKey(fn.Parent())
		return pk + fn.Name()[strings.LastIndex(fn.Name(), "$"):]
	}
	pkg := pkgNameOf(fn)
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			return pkg + ".(*" + typeBase(pt.Elem()) + ")." + fn.Name()
		}
		return pkg + "." + typeBase(t) + "." + fn.Name()
	}
	if strings.HasSuffix(fn.Name(), "$bound") || strings.HasSuffix(fn.Name(), "$thunk") {
		return pkg + "." + fn.String()
	}
	return pkg + "." + fn.Name()
}

func typeBase(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func repoStruct(t types.Type) (*types.Struct, bool) {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		if n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), theProg.modPath) {
			return nil, false
		}
		return st, true
	}
	st, ok := t.(*types.Struct)
	return st, ok
}

var theProg *Program

func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if st, ok := repoStruct(t); ok {
			return structSort(typeName(t), st)
		}
		if _, ok := n.Underlying().(*types.Struct); ok {
			if typeName(t) == "time.Time" {
				return STime
			}
			return Sort("X." + typeName(t))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFloat
		case u.Kind() == types.UntypedNil:
			return SAny
		case u.Kind() == types.UnsafePointer:
			return SRef
		}
	case *types.Pointer:
		return SRef
	case *types.Map, *types.Chan:
		return SRef
	case *types.Slice:
		return SeqOf(sortOf(u.Elem()))
	case *types.Array:
		return SeqOf(sortOf(u.Elem()))
	case *types.Interface:
		return SAny
	case *types.Signature:
		return SFn
	case *types.Struct:
		return structSort(typeName(t), u)
	case *types.Tuple:
		return "Tuple"
	}
	panic("sort of " + t.String())
}

func structSort(name string, st *types.Struct) Sort {
	s := Sort(name)
	if datatypes[s] == nil {
		d := &Datatype{Name: s}
		datatypes[s] = d
		for i := 0; i < st.NumFields(); i++ {
			d.Fields = append(d.Fields, DField{st.Field(i).Name(), sortOf(st.Field(i).Type())})
		}
	}
	return s
}

func isStructVal(t types.Type) bool { _, ok := repoStruct(t); return ok }

func fieldIndex(t types.Type, name string) int {
	st, ok := repoStruct(t)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

var AnyNil = App("anynil", SAny)
var FnNil = App("fnnil", SFn)
var TimeZero = App("timeZero", STime)

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	if st, ok := repoStruct(t); ok {
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, zeroOf(st.Field(i).Type()))
		}
		return MkData(sortOf(t), fs...)
	}
	s := sortOf(t)
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SStr:
		return Str("")
	case SRef:
		return Nil
	case SAny:
		return AnyNil
	case SFn:
		return FnNil
	case STime:
		return TimeZero
	case SFloat:
		return App("float0", SFloat)
	}
	if s.IsSeq() {
		return SeqEmpty(s.Elem())
	}
	return App("zero_"+mangle(string(s)), s)
}

// ---- heap classes

var classSort = map[string]Sort{"ghost:alloc": SInt}
var classGo = map[string]types.Type{} // Go type of the values of a class

func fieldClass(t types.Type, i int) string {
	st, _ := repoStruct(t)
	c := typeName(t) + "." + st.Field(i).Name()
	if classSort[c] == "" {
		classSort[c] = ArrOf(SRef, sortOf(st.Field(i).Type()))
		classGo[c] = st.Field(i).Type()
	}
	return c
}
func cellClass(t types.Type) string {
	c := "cell:" + typeName(types.Unalias(t))
	if classSort[c] == "" {
		classSort[c] = ArrOf(SRef, sortOf(t))
		classGo[c] = t
	}
	return c
}
func globalClass(g *ssa.Global) string {
	t := g.Type().(*types.Pointer).Elem()
	c := "G:" + g.Pkg.Pkg.Name() + "." + g.Name()
	classSort[c] = sortOf(t)
	classGo[c] = t
	return c
}
func mapClass(m *types.Map, part string) string {
	c := "map:" + typeName(m.Key()) + "|" + typeName(m.Elem()) + ":" + part
	if classSort[c] == "" {
		k, v := sortOf(m.Key()), sortOf(m.Elem())
		classGo[c] = m
		switch part {
		case "dom":
			classSort[c] = ArrOf(SRef, ArrOf(k, SBool))
		case "val":
			classSort[c] = ArrOf(SRef, ArrOf(k, v))
		case "card":
			classSort[c] = ArrOf(SRef, SInt)
		}
	}
	return c
}
func ghostClass(name string, s Sort) string {
	c := "ghost:" + name
	classSort[c] = s
	return c
}

func isDirectClass(c string) bool {
	return strings.HasPrefix(c, "G:") || strings.HasPrefix(c, "ghost:")
}

// ---- symbolic state

type State struct {
	heap     map[string]*Term
	pc       []*Term
	pcset    map[*Term]bool
	guards   []*Term // branch conditions among pc
	env      map[envKey]Val
	defers   map[int][]deferred
	consumed map[*Own]bool
	pending  map[string]string
	loops    []*loopCtx
	path     []string
	assumed  map[*Term]bool
	onHeap   func(class string) *Term // recording states (spec function bodies)
	ranges   bool                     // machine integers are known to be in range
	iters    map[int]*Term            // map-range iterators: visited set / index
}

type envKey struct {
	frame int
	v     any
}

func newState() *State {
	return &State{heap: map[string]*Term{}, pcset: map[*Term]bool{}, env: map[envKey]Val{}, defers: map[int][]deferred{}, consumed: map[*Own]bool{}, pending: map[string]string{}, iters: map[int]*Term{}}
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term(nil), s.pc...)
	n.pcset = make(map[*Term]bool, len(s.pcset))
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.env = make(map[envKey]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = map[int][]deferred{}
	for k, v := range s.defers {
		n.defers[k] = append([]deferred(nil), v...)
	}
	n.consumed = map[*Own]bool{}
	for k := range s.consumed {
		n.consumed[k] = true
	}
	n.pending = map[string]string{}
	for k, v := range s.pending {
		n.pending[k] = v
	}
	n.iters = map[int]*Term{}
	for k, v := range s.iters {
		n.iters[k] = v
	}
	n.loops = append([]*loopCtx(nil), s.loops...)
	n.path = append([]string(nil), s.path...)
	n.guards = append([]*Term(nil), s.guards...)
	return &n
}

func (s *State) assume(t *Term) {
	if t == True || s.pcset[t] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.pcset[t] = true
	s.pc = append(s.pc, t)
}

// dead reports a syntactically contradictory path condition
func (s *State) dead() bool {
	if s.pcset[False] {
		return true
	}
	return false
}

func (s *State) get(class string) *Term {
	if t, ok := s.heap[class]; ok {
		return t
	}
	if s.onHeap != nil {
		t := s.onHeap(class)
		s.heap[class] = t
		return t
	}
	so := classSort[class]
	if so == "" {
		panic("unknown heap class " + class)
	}
	t := initHeapVar(class, so)
	s.heap[class] = t
	return t
}

func (s *State) alloc() *Term     { return s.get("ghost:alloc") }
func (s *State) setAlloc(t *Term) { s.heap["ghost:alloc"] = t }

var heapVarClass = map[*Term]string{}

// the value of a class at function entry
func initHeapVar(class string, so Sort) *Term {
	if class == "ghost:alloc" {
		return mk("var", "alloc!0", SInt)
	}
	t := mk("var", "H$"+sanitize(mangleClass(class)), so)
	t.old = true
	heapVarClass[t] = class
	return t
}
func mangleClass(c string) string { return strings.NewReplacer("*", "p", "[]", "s_").Replace(c) }

func (s *State) havoc(class string) *Term {
	if class == "ghost:alloc" {
		o := s.alloc()
		n := Fresh("alloc", SInt)
		s.setAlloc(n)
		s.assume(Le(o, n))
		return n
	}
	t := Fresh("H$"+mangleClass(class), classSort[class])
	heapVarClass[t] = class
	s.heap[class] = t
	return t
}

// root class of a heap array term
func classOfArr(t *Term) string {
	for t.op == "store" || t.op == "ite" {
		if t.op == "ite" {
			t = t.args[1]
			continue
		}
		t = t.args[0]
	}
	return heapVarClass[t]
}

type Own struct {
	kind string // fresh, loc, shared, prefix
	loc  string
}

type Val struct {
	T    *Term
	Fn   *FuncVal
	Tup  []Val
	Addr *Addr
	Iter *IterVal
	Own  *Own
}

type FuncVal struct {
	fn       *ssa.Function
	bindings []Val
}

type Addr struct {
	class string // leaf location: class+ref
	ref   *Term
	typ   types.Type // type of the value stored
	// element of a slice value
	base  *Val
	bkey  *envKey
	idx   *Term
	path  []int
	ptyps []types.Type
	// element of a local array
	arr    *Term // Ref of the array object
	arrLen int64
}

type IterVal struct {
	id   int
	m    *Term // map ref
	mt   *types.Map
	str  *Term // decoded runes of a string
	dom0 *Term
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type loopCtx struct {
	key     string
	frame   int
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	onBack  func(st *State, from *ssa.BasicBlock)
	onLeave bool // discovery: stop when leaving
}
