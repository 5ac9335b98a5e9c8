package main

import (
	"errors"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Verifier generates and discharges the obligations of the functions under contract.
type Verifier struct {
	alt   sync.Map // functions whose alternative invariants are tried
	prog  *Program
	db    *SpecDB
	scc   map[*ssa.Function]int
	props map[string]bool // properties to decide; empty: all
	stale map[string]string
	// strict: one property is decided on its own; callees' postconditions are assumed only
	// when they carry that property, and are then discharged in the same run
	strict bool

	lemMu    sync.Mutex
	lemmaUse map[string]bool

	baseFresh map[string]int
	second    int64
}

var termMu sync.Mutex // term construction is not thread safe

type FnReport struct {
	SlowCand bool // a candidate invariant was given up for lack of time
	Key      string
	Obls     []*Obl
	Failed   []*Obl
	Proved   int
	Paths    int
	Exits    int
	Assume   []string
	Inlined  []string
	Called   []string
	Lemma    bool
	Secs     float64
	Rounds   int
	Kept     []string
	Vacuous  string
	Unsup    string
	Trusted  bool
	BackEdge int
}

func newVerifier(p *Program, db *SpecDB) *Verifier {
	v := &Verifier{prog: p, db: db, stale: map[string]string{}, lemmaUse: map[string]bool{}}
	v.computeSCC()
	for k, c := range db.Contracts {
		if c.Kind != "func" {
			continue
		}
		fn := p.funcs[k]
		if fn == nil {
			v.stale[k] = "function does not exist"
			continue
		}
		if why := v.mismatch(c, fn); why != "" {
			v.stale[k] = why
		}
	}
	return v
}

func (v *Verifier) mismatch(c *Contract, fn *ssa.Function) (why string) {
	defer func() {
		if r := recover(); r != nil {
			why = fmt.Sprint(r)
		}
	}()
	if len(c.Params) != len(fn.Params) {
		return fmt.Sprintf("has %d parameters, contract has %d", len(fn.Params), len(c.Params))
	}
	for i, p := range c.Params {
		if p.Name == "_" {
			continue
		}
		st := resolveType(p.Type, c.Pkg)
		if st.Go != nil && sortOf(fn.Params[i].Type()) != st.Sort {
			return fmt.Sprintf("parameter %s has type %s, contract says %s", p.Name, fn.Params[i].Type(), p.Type)
		}
	}
	if fn.Signature.Results().Len() != len(c.Results) {
		return fmt.Sprintf("has %d results, contract has %d", fn.Signature.Results().Len(), len(c.Results))
	}
	for i, p := range c.Results {
		st := resolveType(p.Type, c.Pkg)
		if st.Go != nil && sortOf(fn.Signature.Results().At(i).Type()) != st.Sort {
			return fmt.Sprintf("result %s has type %s, contract says %s", p.Name, fn.Signature.Results().At(i).Type(), p.Type)
		}
	}
	return ""
}

// contractFor returns the contract callers rely on, nil if there is none that fits the code
func (v *Verifier) contractFor(key string) *Contract {
	c := v.db.Contracts[key]
	if c == nil || v.stale[key] != "" {
		return nil
	}
	return c
}

// computeSCC finds mutual recursion in the static call graph (a closure is called where it is made)
func (v *Verifier) computeSCC() {
	v.scc = map[*ssa.Function]int{}
	top := func(f *ssa.Function) *ssa.Function { return f }
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	var fns []*ssa.Function
	var keys []string
	for k := range v.prog.funcs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	bySel := map[string][]*ssa.Function{} // functions stored in fields: any bound method
	for _, k := range keys {
		f := v.prog.funcs[k]
		fns = append(fns, f)
		t := top(f)
		if succ[t] == nil {
			succ[t] = map[*ssa.Function]bool{}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if g.Synthetic != "" && g.Object() != nil {
							if h := v.prog.prog.FuncValue(g.Object().(*types.Func)); h != nil {
								g = h
							}
						}
						if v.prog.inRepo(g) {
							succ[t][top(g)] = true
						}
					}
				}
			}
		}
	}
	_ = bySel
	// the lexer calls the parser back through its parser field
	for _, f := range fns {
		if funcKey(f) == "parser.(*lexer).lex" {
			for _, g := range fns {
				if funcKey(g) == "parser.(*Parser).parseItem" {
					succ[f][g] = true
				}
			}
		}
	}
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, comp := 0, 0
	self := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for g := range succ[f] {
			if g == f {
				self[f] = true
			}
			if idx[g] == 0 {
				rec(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || self[f] {
				comp++
				for _, g := range c {
					v.scc[g] = comp
				}
			}
		}
	}
	for _, f := range fns {
		if t := top(f); idx[t] == 0 {
			rec(t)
		}
	}
}

func (v *Verifier) sameSCC(f, g *ssa.Function) bool {
	return v.scc[f] != 0 && v.scc[f] == v.scc[g]
}

// instLemma instantiates a lemma: requires ==> ensures
func (v *Verifier) instLemma(cl *Clause, e *SEnv) *Term {
	ee, inner, bs, trigs := quantEnv(cl.E, e)
	if inner.Op != "call" || inner.Args[0].Op != "ident" {
		unsup("use needs a lemma application")
	}
	l := v.db.Lemmas[inner.Args[0].Name]
	if l == nil {
		unsup("unknown lemma %s", inner.Args[0].Name)
	}
	v.lemMu.Lock()
	v.lemmaUse[l.Name] = true
	v.lemMu.Unlock()
	r := v.lemmaInst(l, inner.Args[1:], ee)
	if cl.When != nil {
		r = Imp(ee.eval(cl.When).T, r)
	}
	if len(bs) > 0 {
		r = Forall(bs, r, trigs...)
	}
	return r
}

// quantEnv opens "forall x T {triggers} :: lemma(args)"
// and old(lemma(args)), which speaks of the earlier state
func quantEnv(inner *Expr, e *SEnv) (*SEnv, *Expr, []*Term, [][]*Term) {
	n, x, bs, trigs := quantEnv0(inner, e)
	if x.Op == "call" && x.Args[0].Op == "ident" && x.Args[0].Name == "old" && len(x.Args) == 2 && n.old != nil {
		o := *n
		o.st = n.old
		o.inOld = true
		return &o, x.Args[1], bs, trigs
	}
	return n, x, bs, trigs
}

func quantEnv0(inner *Expr, e *SEnv) (*SEnv, *Expr, []*Term, [][]*Term) {
	if inner.Op != "forall" {
		return e, inner, nil, nil
	}
	n := *e
	n.vars = map[string]TV{}
	for k, w := range e.vars {
		n.vars[k] = w
	}
	var bs []*Term
	for _, p := range inner.Vars {
		ty := resolveType(p.Type, e.pkg)
		b := BoundVar(p.Name, ty.Sort)
		bs = append(bs, b)
		n.vars[p.Name] = TV{b, ty}
	}
	var trigs [][]*Term
	for _, tr := range inner.Trigs {
		var ts []*Term
		for _, y := range tr {
			ts = append(ts, n.eval(y).T)
		}
		trigs = append(trigs, ts)
	}
	return &n, inner.Args[0], bs, trigs
}

func (v *Verifier) lemmaEnv(l *Lemma, args []*Expr, e *SEnv) *SEnv {
	if len(args) != len(l.Params) {
		unsup("lemma %s takes %d arguments", l.Name, len(l.Params))
	}
	le := &SEnv{db: v.db, pkg: l.Pkg, vars: map[string]TV{}, st: e.st, old: e.old, entry: e.entry}
	for i, a := range args {
		t := e.eval(a)
		ty := resolveType(l.Params[i].Type, l.Pkg)
		if t.Ty == nilST {
			t.T = coerceNil(ty)
		}
		if t.T.sort != ty.Sort {
			unsup("argument %d of lemma %s: have %s, want %s", i, l.Name, t.T.sort, ty.Sort)
		}
		le.vars[l.Params[i].Name] = TV{t.T, ty}
	}
	return le
}

func (v *Verifier) lemmaInst(l *Lemma, args []*Expr, e *SEnv) *Term {
	le := v.lemmaEnv(l, args, e)
	var req, ens []*Term
	for _, c := range l.Clauses {
		switch c.Kind {
		case "requires":
			req = append(req, le.eval(c.E).T)
		case "ensures":
			ens = append(ens, le.eval(c.E).T)
		}
	}
	return Imp(And(req...), And(ens...))
}

// registerValues: functions used as values whose contract (flag value) says what they return
// for given arguments, independently of the state
func (v *Verifier) registerValues() {
	var names []string
	for key := range v.db.Contracts {
		names = append(names, key)
	}
	sort.Strings(names)
	for _, key := range names {
		c := v.db.Contracts[key]
		if v.strict && !v.wants(c.Props) && !v.wants(c.Lend) {
			continue
		}
		fn := v.prog.funcs[key]
		if !c.Flags["value"] || c.Kind != "func" || fn == nil || len(fn.FreeVars) > 0 || len(c.Results) != 1 || len(c.get("requires")) > 0 {
			continue
		}
		st := newState()
		st.onHeap = func(c string) *Term { panic(unsupported{key + ": a value's result depends on the state"}) }
		e := &SEnv{db: v.db, pkg: c.Pkg, vars: map[string]TV{}, st: st}
		var bs []*Term
		as := []*Term{App("fn:"+funcKey(fn), SFn)}
		for i, p := range fn.Params {
			b := BoundVar(c.Params[i].Name, sortOf(p.Type()))
			bs = append(bs, b)
			as = append(as, b)
			e.vars[c.Params[i].Name] = TV{b, goST(p.Type())}
		}
		t := fn.Signature.Results().At(0).Type()
		r := App(applyName(as, sortOf(t)), sortOf(t), as...)
		e.vars[c.Results[0].Name] = TV{r, goST(t)}
		var ens []*Term
		for _, cl := range c.get("ensures") {
			ens = append(ens, e.eval(cl.E).T)
		}
		axioms = append(axioms, &Axiom{Name: "value " + key, F: Forall(bs, And(ens...), []*Term{r}), Needs: []string{as[0].name}})
		axioms = append(axioms, &Axiom{Name: "value " + key, F: Not(Eq(as[0], FnNil)), Needs: []string{as[0].name}})
	}
}

// registerAxioms adds axioms, and lemmas with triggers, as quantified facts. Lemmas
// become available in order, so that no lemma is used in its own proof.
func (v *Verifier) registerAxioms() {
	axioms = nil
	v.registerValues()
	for i, l := range v.db.LemmaList {
		var trig *Clause
		for _, c := range l.Clauses {
			if c.Kind == "trigger" {
				trig = c
			}
		}
		if !l.Axiom && trig == nil {
			continue
		}
		hv := map[string]*Term{}
		var hb []*Term
		mkState := func(tag string) *State {
			st := newState()
			st.onHeap = func(c string) *Term {
				k := tag + c
				if t := hv[k]; t != nil {
					return t
				}
				t := BoundVar("h"+tag+"$"+mangleClass(c), classSort[c])
				hv[k] = t
				hb = append(hb, t)
				return t
			}
			return st
		}
		e := &SEnv{db: v.db, pkg: l.Pkg, vars: map[string]TV{}, st: mkState("n"), old: mkState("o")}
		var bs []*Term
		for _, p := range l.Params {
			ty := resolveType(p.Type, l.Pkg)
			b := BoundVar(p.Name, ty.Sort)
			bs = append(bs, b)
			e.vars[p.Name] = TV{b, ty}
		}
		var req, ens []*Term
		for _, c := range l.Clauses {
			switch c.Kind {
			case "requires":
				req = append(req, e.eval(c.E).T)
			case "ensures":
				ens = append(ens, e.eval(c.E).T)
			}
		}
		body := Imp(And(req...), And(ens...))
		var pat []*Term
		if trig != nil {
			for _, a := range trig.E.Args {
				pat = append(pat, e.eval(a).T)
			}
		}
		bs = append(bs, hb...)
		f := body
		if len(bs) > 0 {
			if pat == nil {
				panic("axiom " + l.Name + " has parameters but no trigger")
			}
			f = Forall(bs, body, pat)
		}
		ax := &Axiom{Name: l.Name, F: f, Lemma: !l.Axiom, Order: i}
		need := map[string]bool{}
		var coll func(t *Term, m map[string]bool)
		coll = func(t *Term, m map[string]bool) {
			if t.op == "app" && len(t.args) > 0 {
				m[t.name] = true
			}
			for _, a := range t.args {
				coll(a, m)
			}
		}
		if f.op == "forall" && len(f.pats) > 0 {
			for i, p := range f.pats {
				m := map[string]bool{}
				for _, t := range p {
					coll(t, m)
				}
				if i == 0 {
					need = m
				} else {
					for k := range need {
						if !m[k] {
							delete(need, k)
						}
					}
				}
			}
		} else {
			coll(f, need)
		}
		for n := range need {
			ax.Needs = append(ax.Needs, n)
		}
		sort.Strings(ax.Needs)
		axioms = append(axioms, ax)
	}
}

// initFacts: the initial heap is well typed
func (v *Verifier) initFacts(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var classes []string
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" && t.old && heapVarClass[t] != "" && strings.HasPrefix(t.name, "H$") {
			classes = append(classes, heapVarClass[t])
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	sort.Strings(classes)
	var out []*Term
	for _, c := range classes {
		st := newState()
		x := &FnRun{v: v}
		x.wfHeap(st, c)
		out = append(out, st.pc...)
	}
	return out
}

func (v *Verifier) solve(o *Obl, effort int) Result {
	termMu.Lock()
	fc, bc := freshCount, bornCount
	freshCount = map[string]int{}
	for k, n := range v.baseFresh {
		freshCount[k] = n + 100000
	}
	hyps := append(append([]*Term(nil), o.Hyps...), v.initFacts(append(append([]*Term(nil), o.Hyps...), o.Goal))...)
	q := prepareQuery(hyps, o.Goal, o.MaxAx)
	freshCount, bornCount = fc, bc
	termMu.Unlock()
	return q.solve(effort)
}

// ---- functions

func (v *Verifier) newRun(key string, c *Contract, fn *ssa.Function, dropped map[string]bool) *FnRun {
	return &FnRun{v: v, fn: fn, c: c, key: key, dropped: dropped, assume: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, groups: map[string]string{}, autoTerm: map[string]bool{}, localDone: map[string]bool{}, boxOwn: map[*Term]*Own{}, backEdges: map[string]int{}}
}

var errPaths = errors.New("too many paths")

func (v *Verifier) execute(key string, c *Contract, fn *ssa.Function, dropped map[string]bool, join bool) (x *FnRun, err error) {
	freshCount = map[string]int{}
	for k, n := range v.baseFresh {
		freshCount[k] = n
	}
	x = v.newRun(key, c, fn, dropped)
	x.joining = join
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooManyPaths); ok {
				err = errPaths
				return
			}
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("outside the verified subset: %s", u.msg)
				return
			}
			if os.Getenv("GOVC_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("generator failure: %v", r)
		}
	}()
	st := newState()
	st.ranges = c.Flags["checked"]
	st.assume(Lt(Int(0), st.alloc()))
	fr := x.newFrame(fn, nil, nil, "", nil)
	fr.key = key
	x.vars = map[string]TV{}
	for i, p := range fn.Params {
		t := mk("var", "p$"+fmt.Sprint(i)+"$"+sanitize(c.Params[i].Name)+"$"+sanitize(string(sortOf(p.Type()))), sortOf(p.Type()))
		t.old = true
		st.assume(wellTypedDeep(st, t, p.Type()))
		if t.sort == SFn {
			fnParamKey[t] = key + "#" + c.Params[i].Name
		}
		vv := x.fromTerm(t, p.Type())
		if t.sort.IsSeq() {
			vv.Own = &Own{kind: "shared"}
			for _, w := range strings.Fields(ownClause(c)) {
				if w == c.Params[i].Name {
					vv.Own = &Own{kind: "fresh"}
				}
			}
		}
		x.set(fr, st, p, vv)
		if c.Params[i].Name != "_" {
			x.vars[c.Params[i].Name] = TV{t, goST(p.Type())}
		}
	}
	var cells []*Term
	for _, f := range fn.FreeVars {
		pt, ok := f.Type().Underlying().(*types.Pointer)
		if !ok {
			unsup("captured %s", f.Name())
		}
		el := pt.Elem()
		t := mk("var", "c$"+sanitize(f.Name()), SRef)
		t.old = true
		st.assume(And(Lt(Int(0), Rid(t)), Lt(Rid(t), st.alloc())))
		for _, o := range cells {
			st.assume(Not(Eq(o, t)))
		}
		cells = append(cells, t)
		if isStructVal(el) {
			fr.bindings = append(fr.bindings, Val{T: t})
			x.capt = append(x.capt, capture{f.Name(), nil, Val{T: t}, f.Type()})
			continue
		}
		a := &Addr{class: cellClass(el), ref: t, typ: el}
		fr.bindings = append(fr.bindings, Val{T: t, Addr: a})
		x.capt = append(x.capt, capture{f.Name(), a, Val{}, el})
	}
	for _, cl := range c.get("reveal") {
		st.assume(v.db.definition(cl.Src))
	}
	x.entry = st.clone()
	e := &SEnv{db: v.db, pkg: c.Pkg, vars: x.vars, st: st, old: nil, onDemand: x.captured}
	for _, cl := range c.get("requires") {
		st.assume(x.evalClause(c, cl, e))
	}
	x.entry = st.clone()
	e.st = x.entry
	e.old = x.entry
	if d := c.get("decreases"); len(d) > 0 {
		x.measure0 = x.evalClause(c, d[0], e)
	}
	x.mods = x.mods0(c, e)
	x.useLemmas(st, c, e, "entry")
	fr.ret = func(s *State, res []Val) { x.exit(s, res, c, x.vars, fn.Signature, true) }
	x.run(fr, fn.Blocks[0], 0, st)
	return x, nil
}

func ownClause(c *Contract) string {
	s := ""
	for k := range c.Flags {
		if strings.HasPrefix(k, "owns:") {
			s += " " + k[5:]
		}
	}
	return s
}

func (v *Verifier) wants(tags []string) bool {
	if len(v.props) == 0 {
		return true
	}
	for _, t := range tags {
		if v.props[t] || t == "*" {
			return true
		}
	}
	return false
}

// relevant reports whether the contract carries obligations of the selected properties
func (v *Verifier) relevant(c *Contract) bool {
	if len(v.props) == 0 || v.props["C12"] || v.props["C23"] {
		return true
	}
	if v.wants(c.Props) {
		return true
	}
	for _, cl := range c.Clauses {
		if v.wants(cl.Tags) {
			return true
		}
	}
	for _, l := range c.Locals {
		if v.wants(l.Props) {
			return true
		}
		for _, cl := range l.Clauses {
			if v.wants(cl.Tags) {
				return true
			}
		}
	}
	return false
}

func (v *Verifier) failedReport(key string, c *Contract, kind, msg string) *FnReport {
	tags := c.Props
	if v.props["C12"] || v.props["C23"] {
		tags = append(append([]string{}, tags...), "C12", "C23")
	}
	for _, cl := range c.Clauses {
		tags = append(tags, cl.Tags...)
	}
	o := &Obl{Fn: key, Name: msg, Kind: kind, Tags: tags, Res: Result{Status: "unknown"}}
	if fn := v.prog.funcs[key]; fn != nil {
		o.Pos = (&FnRun{v: v}).pos(fn.Pos())
	}
	return &FnReport{Key: key, Obls: []*Obl{o}, Failed: []*Obl{o}, Unsup: msg}
}

func parDo(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); f(i) }()
	}
	wg.Wait()
}

// verifyFn proves one function; when that fails, a second attempt gives the candidate
// invariants more time
func (v *Verifier) verifyFn(key string) *FnReport {
	if c := v.db.Contracts[key]; c != nil && c.Flags["patient"] {
		return v.verifyFn1(key, true)
	}
	r := v.verifyFn1(key, false)
	if c := v.db.Contracts[key]; len(r.Failed) > 0 && r.Unsup == "" && c != nil && len(c.get("alt")) > 0 {
		// the loops may have another shape
		v.alt.Store(key, true)
		if r2 := v.verifyFn1(key, false); len(r2.Failed) < len(r.Failed) {
			return r2
		}
	}
	if len(r.Failed) > 0 && r.Unsup == "" && r.SlowCand && atomic.AddInt64(&v.second, 1) <= 2 {
		if r2 := v.verifyFn1(key, true); len(r2.Failed) < len(r.Failed) {
			return r2
		}
	}
	return r
}

func (v *Verifier) verifyFn1(key string, hard bool) *FnReport {
	c := v.db.Contracts[key]
	t0 := time.Now()
	if why := v.stale[key]; why != "" {
		return v.failedReport(key, c, "subset", key+" "+why)
	}
	fn := v.prog.funcs[key]
	dropped := map[string]bool{}
	var x *FnRun
	rep := &FnReport{Key: key}
	join := c.Flags["join"]
	for round := 0; ; round++ {
		termMu.Lock()
		var err error
		x, err = v.execute(key, c, fn, dropped, join)
		if err == errPaths {
			join = true
			x, err = v.execute(key, c, fn, dropped, join)
		}
		termMu.Unlock()
		if err != nil {
			return v.failedReport(key, c, "subset", key+": "+err.Error())
		}
		// candidate invariants first
		var cand []*Obl
		for _, o := range x.obls {
			if o.Cand != "" && o.Group == "" {
				cand = append(cand, o)
			}
		}
		cand = v.joinCands(cand)
		var mu sync.Mutex
		n0 := len(dropped)
		parDo(len(cand), func(i int) {
			o := cand[i]
			mu.Lock()
			d := dropped[o.Cand]
			mu.Unlock()
			if d {
				return
			}
			r := v.solve(o, 0)
			slow := r.Status == "unknown" && (r.Secs > 0.7 || strings.Contains(o.Cand, "#inv"))
			if slow && hard {
				hardSem <- struct{}{}
				r = v.solve(o, 3)
				<-hardSem
			}
			if r.Status != "unsat" {
				mu.Lock()
				rep.SlowCand = rep.SlowCand || slow
				dropped[o.Cand] = true
				mu.Unlock()
				if os.Getenv("GOVC_CAND") != "" {
					fmt.Fprintf(os.Stderr, "drop r%d %s [%s] %s (%s %.1fs) %s\n", round, o.Cand, o.Kind, o.Name, r.Status, r.Secs, r.Query)
				}
			}
		})
		rep.Rounds = round + 1
		if len(dropped) == n0 {
			for _, o := range cand {
				rep.Kept = append(rep.Kept, o.Kind+" "+o.Cand+" "+o.Name)
			}
			break
		}
		if round > 40 {
			return v.failedReport(key, c, "subset", key+": loop invariants do not stabilise")
		}
	}
	rep.Paths, rep.Exits = x.paths, x.exits
	if os.Getenv("GOVC_CAND") == "2" {
		for _, k := range rep.Kept {
			fmt.Fprintln(os.Stderr, "kept", k)
		}
	}
	// the obligations themselves
	var obls []*Obl
	for _, o := range x.obls {
		if o.Cand == "" && v.wants(o.Tags) {
			obls = append(obls, o)
		}
	}
	// vacuity
	if x.exits == 0 && !c.Flags["noreturn"] && !c.Flags["mayneverreturn"] {
		obls = append(obls, &Obl{Fn: key, Name: "the function can return", Kind: "vacuity", Tags: c.Props, Goal: False})
	}
	v.hideFacts(c, obls)
	groups := v.joinObls(obls)
	var fails int64
	if _, tried := v.alt.Load(key); !tried && len(c.get("alt")) > 0 {
		fails = 1000 // a short attempt first
	}
	parDo(len(groups), func(i int) { v.solveGroup(groups[i], &fails) })
	// measures
	if v.wants([]string{"C23"}) {
		byCand := map[string][]*Obl{}
		var ks []string
		for _, o := range x.obls {
			if o.Group != "" {
				if byCand[o.Cand] == nil {
					ks = append(ks, o.Cand)
				}
				byCand[o.Cand] = append(byCand[o.Cand], o)
			}
		}
		good := map[string]string{}
		var mu sync.Mutex
		parDo(len(ks), func(i int) {
			os := byCand[ks[i]]
			for _, o := range os {
				mu.Lock()
				g := good[o.Group]
				mu.Unlock()
				if g != "" {
					return
				}
				if o.Res = v.solve(o, 0); o.Res.Status != "unsat" {
					return
				}
			}
			mu.Lock()
			good[os[0].Group] = ks[i]
			mu.Unlock()
		})
		// a second, longer attempt for loops without a measure so far
		for _, k := range ks {
			os := byCand[k]
			if good[os[0].Group] != "" || atomic.LoadInt64(&fails) >= 1000 {
				continue
			}
			ok := true
			for _, o := range os {
				if o.Res.Status == "unsat" {
					continue
				}
				if o.Res.Status != "sat" {
					o.Res = v.solve(o, 1)
				}
				if ok = o.Res.Status == "unsat"; !ok {
					break
				}
			}
			if ok {
				good[os[0].Group] = k
			}
		}
		var gs []string
		for g := range x.groups {
			if x.backEdges[g] > 0 {
				gs = append(gs, g)
			}
		}
		sort.Strings(gs)
		for _, g := range gs {
			o := &Obl{Fn: key, Name: "loop terminates: some measure decreases", Kind: "decreases", Tags: []string{"C23"}, Pos: x.groups[g]}
			o.Res.Status = "unknown"
			if m := good[g]; m != "" {
				o.Name = "loop terminates: measure " + m[strings.Index(m, "#")+1:]
				o.Res = Result{Status: "unsat", Backend: byCand[m][0].Res.Backend}
			}
			obls = append(obls, o)
		}
	}
	for _, o := range obls {
		rep.Obls = append(rep.Obls, o)
		if o.Res.Status == "unsat" {
			rep.Proved++
		} else {
			rep.Failed = append(rep.Failed, o)
		}
	}
	// vacuity of the precondition and of the first exit
	if len(rep.Failed) == 0 && x.exits > 0 {
		for i, h := range [][]*Term{x.entry.pc, x.cover} {
			if r := v.solve(&Obl{Hyps: h, Goal: False}, 0); r.Status == "unsat" {
				o := &Obl{Fn: key, Name: []string{"the precondition is satisfiable", "a return is reachable"}[i], Kind: "vacuity", Tags: c.Props, Res: Result{Status: "unknown"}}
				rep.Obls = append(rep.Obls, o)
				if i == 0 {
					rep.Failed = append(rep.Failed, o)
				} else {
					rep.Vacuous = "first exit path infeasible"
				}
			}
		}
	}
	keys := func(m map[string]bool) (r []string) {
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return
	}
	rep.Assume, rep.Inlined, rep.Called = keys(x.assume), keys(x.inlined), keys(x.called)
	rep.Secs = time.Since(t0).Seconds()
	return rep
}

// joinCands merges obligations of one candidate? only identical ones
func (v *Verifier) joinCands(os []*Obl) []*Obl { return os }

// hideFacts: "hide tree spelled in activity" proves the clause of that label without the facts of
// the named predicates (fewer hypotheses, so nothing more can be proved)
func (v *Verifier) hideFacts(c *Contract, obls []*Obl) {
	for _, cl := range c.get("hide") {
		what, where, ok := strings.Cut(cl.Src, " in ")
		if !ok {
			unsup("hide without in: %s", cl.Src)
		}
		// "hide earlier P": all but the facts of P assumed last
		what, last := strings.CutPrefix(strings.TrimSpace(what), "earlier ")
		names := map[string]bool{}
		for _, n := range strings.Fields(what) {
			names[n] = true
		}
		for _, l := range strings.Fields(where) {
			for _, o := range obls {
				if o.Kind == "ensures" && strings.Contains(o.Name, ": "+l+": ") {
					hs := make([]*Term, 0, len(o.Hyps))
					termMu.Lock()
					keep := len(o.Hyps)
					if last {
						whole := func(h *Term) bool { return h.op != "=>" && withoutFacts(h, names) != h }
						for keep > 0 && !whole(o.Hyps[keep-1]) {
							keep--
						}
						for keep > 0 && whole(o.Hyps[keep-1]) {
							keep--
						}
					}
					for i, h := range o.Hyps {
						if i >= keep && last {
							hs = append(hs, h)
							continue
						}
						if h = withoutFacts(h, names); h != True {
							hs = append(hs, h)
						}
					}
					termMu.Unlock()
					o.Hyps = hs
				}
			}
		}
	}
}

type oblGroup struct{ obls []*Obl }

func hypsKey(o *Obl) string {
	var sb strings.Builder
	for _, h := range o.Hyps {
		fmt.Fprintf(&sb, "%d ", h.id)
	}
	return sb.String()
}

func (v *Verifier) joinObls(os []*Obl) []*oblGroup {
	by := map[string]*oblGroup{}
	var r []*oblGroup
	for _, o := range os {
		if o.Goal == nil {
			continue
		}
		k := hypsKey(o)
		g := by[k]
		if g == nil {
			g = &oblGroup{}
			by[k] = g
			r = append(r, g)
		}
		g.obls = append(g.obls, o)
	}
	return r
}

// hardLimit: once this many obligations of a function have failed, the others get one short attempt
const hardLimit = 4

var hardSem = make(chan struct{}, 4)

func (v *Verifier) solveGroup(g *oblGroup, fails *int64) {
	if len(g.obls) > 1 {
		termMu.Lock()
		var gs []*Term
		for _, o := range g.obls {
			gs = append(gs, o.Goal)
		}
		goal := And(gs...)
		termMu.Unlock()
		if r := v.solve(&Obl{Hyps: g.obls[0].Hyps, Goal: goal, MaxAx: g.obls[0].MaxAx}, 0); r.Status == "unsat" {
			for _, o := range g.obls {
				o.Res = r
			}
			return
		}
	}
	parDo(len(g.obls), func(i int) {
		g.obls[i].Res = v.solve(g.obls[i], 0)
		if g.obls[i].Res.Status == "unsat" || atomic.LoadInt64(fails) >= hardLimit {
			return
		}
		hardSem <- struct{}{}
		if atomic.LoadInt64(fails) < hardLimit {
			g.obls[i].Res = v.solve(g.obls[i], 1)
			if g.obls[i].Res.Status != "unsat" {
				atomic.AddInt64(fails, 1)
			}
		}
		<-hardSem
	})
}

// ---- lemmas

func (v *Verifier) verifyLemma(l *Lemma, order int) *FnReport {
	rep := &FnReport{Key: "lemma " + l.Name, Lemma: true}
	t0 := time.Now()
	termMu.Lock()
	var obls []*Obl
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					err = fmt.Errorf("%s", u.msg)
				} else {
					err = fmt.Errorf("%v", r)
				}
			}
		}()
		freshCount = map[string]int{}
		for k, n := range v.baseFresh {
			freshCount[k] = n
		}
		st := newState()
		st.onHeap = func(c string) *Term {
			t := mk("var", "HN$"+sanitize(mangleClass(c)), classSort[c])
			heapVarClass[t] = c
			return t
		}
		old := newState()
		vars := map[string]TV{}
		for _, p := range l.Params {
			ty := resolveType(p.Type, l.Pkg)
			vars[p.Name] = TV{mk("var", "lp$"+p.Name+"$"+sanitize(string(ty.Sort)), ty.Sort), ty}
		}
		e := &SEnv{db: v.db, pkg: l.Pkg, vars: vars, st: st, old: old}
		var m0 *Term
		for _, c := range l.Clauses {
			switch c.Kind {
			case "reveal":
				st.assume(v.db.definition(c.Src))
			case "requires":
				st.assume(e.eval(c.E).T)
			case "decreases":
				m0 = e.eval(c.E).T
			}
		}
		for _, c := range l.Clauses {
			switch c.Kind {
			case "use":
				ee, inner, bs, trigs := quantEnv(c.E, e)
				name := inner.Args[0].Name
				u := v.db.Lemmas[name]
				if u == nil {
					unsup("unknown lemma %s", name)
				}
				before := false
				for _, k := range v.db.LemmaList[:order] {
					before = before || k == u
				}
				if !before {
					unsup("lemma %s uses %s, which is not stated before it", l.Name, name)
				}
				v.lemMu.Lock()
				v.lemmaUse[name] = true
				v.lemMu.Unlock()
				r := v.lemmaInst(u, inner.Args[1:], ee)
				if c.When != nil {
					r = Imp(ee.eval(c.When).T, r)
				}
				if len(bs) > 0 {
					r = Forall(bs, r, trigs...)
				}
				st.assume(r)
			case "ih":
				if m0 == nil {
					unsup("ih without decreases in %s", l.Name)
				}
				ee, inner, bs, trigs := quantEnv(c.E, e)
				if inner.Args[0].Name != l.Name {
					unsup("ih of another lemma in %s", l.Name)
				}
				le := v.lemmaEnv(l, inner.Args[1:], ee)
				var m1 *Term
				for _, d := range l.Clauses {
					if d.Kind == "decreases" {
						m1 = le.eval(d.E).T
					}
				}
				r := Imp(And(Le(Int(0), m1), Lt(m1, m0)), v.lemmaInst(l, inner.Args[1:], ee))
				if c.When != nil {
					r = Imp(ee.eval(c.When).T, r)
				}
				if len(bs) > 0 {
					r = Forall(bs, r, trigs...)
				}
				st.assume(r)
			}
		}
		for i, c := range l.Clauses {
			if c.Kind == "ensures" {
				o := &Obl{Fn: rep.Key, Name: fmt.Sprintf("lemma %s: ensures %d: %s", l.Name, i, c.Src), Kind: "lemma", Tags: l.Props, Hyps: append([]*Term(nil), st.pc...), Goal: e.eval(c.E).T, MaxAx: order + 1}
				obls = append(obls, o)
			}
		}
	}()
	termMu.Unlock()
	if err != nil {
		o := &Obl{Fn: rep.Key, Name: "lemma " + l.Name + ": " + err.Error(), Kind: "lemma", Res: Result{Status: "unknown"}}
		rep.Obls, rep.Failed = []*Obl{o}, []*Obl{o}
		return rep
	}
	parDo(len(obls), func(i int) { obls[i].Res = v.solve(obls[i], 1) })
	for _, o := range obls {
		rep.Obls = append(rep.Obls, o)
		if o.Res.Status == "unsat" {
			rep.Proved++
		} else {
			rep.Failed = append(rep.Failed, o)
		}
	}
	rep.Secs = time.Since(t0).Seconds()
	return rep
}
