package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func outClass() string { return ghostClass("out", SStr) }

func emitOut(x *FnRun, st *State, t *Term) {
	c := outClass()
	st.heap[c] = Cat(st.get(c), t)
	x.record(c, nil)
}

// varargs returns the elements of a variadic argument if they are known
func seqElems(t *Term) ([]*Term, bool) {
	switch t.op {
	case "empty":
		return nil, true
	case "unit":
		return []*Term{t.args[0]}, true
	case "app++":
		var r []*Term
		for _, a := range t.args {
			e, ok := seqElems(a)
			if !ok {
				return nil, false
			}
			r = append(r, e...)
		}
		return r, true
	}
	return nil, false
}

func (x *FnRun) newError(st *State, text *Term) Val {
	e := Fresh("err", SAny)
	st.assume(Not(Eq(e, AnyNil)))
	st.assume(Eq(App("emsg", SStr, e), text))
	return Val{T: e}
}

// model handles library functions with built-in semantics
func (x *FnRun) model(fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos, k func(*State, Val)) bool {
	if fn.Pkg == nil || x.v.prog.inRepo(fn) {
		// stringer-generated String methods are opaque
		if x.v.prog.inRepo(fn) && fn.Name() == "String" && fn.Signature.Recv() != nil && sortOf(fn.Signature.Recv().Type()) == SInt {
			if f := x.v.prog.prog.Fset.Position(fn.Pos()).Filename; strings.HasSuffix(f, "_string.go") {
				x.assume["generated "+funcKey(fn)+" is total"] = true
				k(st, Val{T: App("str_"+mangle(typeName(fn.Signature.Recv().Type())), SStr, args[0].T)})
				return true
			}
		}
		return false
	}
	switch fn.String() {
	case "fmt.Sprintf", "fmt.Printf", "fmt.Errorf":
		fs := args[0].T
		els, ok := seqElems(args[1].T)
		done := func(s *State, text *Term) {
			switch fn.Name() {
			case "Sprintf":
				k(s, Val{T: text})
			case "Printf":
				emitOut(x, s, text)
				k(s, Val{Tup: []Val{{T: SLen(text)}, {T: AnyNil}}})
			default:
				k(s, x.newError(s, text))
			}
		}
		if fs.op != "str" || !ok {
			done(st, App("fmtUnknown", SStr, fs, args[1].T))
			return true
		}
		x.format(fr, st, fs.name, els, pos, done)
		return true
	case "fmt.Println", "fmt.Print":
		els, ok := seqElems(args[0].T)
		if !ok {
			emitOut(x, st, App("printlnUnknown", SStr, args[0].T))
			k(st, Val{Tup: []Val{{T: Fresh("n", SInt)}, {T: AnyNil}}})
			return true
		}
		var rec func(s *State, i int, acc []*Term)
		rec = func(s *State, i int, acc []*Term) {
			if i == len(els) {
				if fn.Name() == "Println" {
					acc = append(acc, Str("\n"))
				}
				emitOut(x, s, Cat(acc...))
				k(s, Val{Tup: []Val{{T: Fresh("n", SInt)}, {T: AnyNil}}})
				return
			}
			x.textOf(fr, s, els[i], 'v', pos, func(s *State, t *Term) {
				a := append([]*Term(nil), acc...)
				if i > 0 && fn.Name() == "Println" {
					a = append(a, Str(" "))
				}
				rec(s, i+1, append(a, t))
			})
		}
		rec(st, 0, nil)
		return true
	case "errors.New":
		k(st, x.newError(st, args[0].T))
		return true
	case "log.Fatalln", "log.Fatal", "log.Fatalf", "os.Exit":
		return true // the process ends with a message; no panic
	case "sort.Strings":
		x.sortModel(fr, st, args[0], nil, false, pos, func(s *State) { k(s, Val{}) })
		return true
	case "sort.Slice", "sort.SliceStable":
		a := args[0]
		if a.T.op == "app" && strings.HasPrefix(a.T.name, "box:") {
			v := Val{T: a.T.args[0], Own: x.boxOwn[a.T]}
			less := args[1]
			x.sortModel(fr, st, v, &less, fn.Name() == "SliceStable", pos, func(s *State) { k(s, Val{}) })
			return true
		}
	}
	return false
}

// textOf is the default formatting of an interface value
func (x *FnRun) textOf(fr *Frame, st *State, v *Term, verb rune, pos token.Pos, k func(*State, *Term)) {
	if v == AnyNil {
		k(st, Str("<nil>"))
		return
	}
	if v.op == "app" && strings.HasPrefix(v.name, "box:") {
		t := boxTypes[v.name]
		a := v.args[0]
		if verb == 's' || verb == 'v' || verb == 'w' {
			for _, mn := range []string{"Error", "String"} {
				ms := x.v.prog.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					m := ms.At(i)
					if m.Obj().Name() != mn {
						continue
					}
					sig := m.Obj().Type().(*types.Signature)
					if sig.Params().Len() != 0 || sig.Results().Len() != 1 || sortOf(sig.Results().At(0).Type()) != SStr {
						continue
					}
					fn := x.v.prog.prog.MethodValue(m)
					if fn == nil {
						continue
					}
					x.callFn(fr, st, &FuncVal{fn: fn}, []Val{x.fromTerm(a, t)}, pos, func(s *State, r Val) { k(s, r.T) })
					return
				}
			}
		}
		switch sortOf(t) {
		case SStr:
			k(st, a)
			return
		case SInt:
			if verb == 'v' || verb == 'd' {
				k(st, Itoa(a))
				return
			}
			if verb == 'c' {
				k(st, App("enc", SStr, SeqUnit(a)))
				return
			}
		case SBool:
			k(st, Ite(a, Str("true"), Str("false")))
			return
		}
		k(st, App("text_"+string(verb)+"_"+mangle(typeName(t)), SStr, a))
		return
	}
	// an error or other interface value
	k(st, App("emsg", SStr, v))
}

func Itoa(n *Term) *Term {
	if n.isInt() {
		return Str(n.n.String())
	}
	return App("itoa", SStr, n)
}

func (x *FnRun) format(fr *Frame, st *State, f string, args []*Term, pos token.Pos, k func(*State, *Term)) {
	var rec func(s *State, f string, n int, acc []*Term)
	rec = func(s *State, f string, n int, acc []*Term) {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			if f != "" {
				acc = append(acc, Str(f))
			}
			if n < len(args) {
				acc = append(acc, App("fmtExtra", SStr, Int(int64(len(args)-n))))
			}
			if len(acc) == 0 {
				k(s, Str(""))
				return
			}
			k(s, Cat(acc...))
			return
		}
		if i > 0 {
			acc = append(append([]*Term(nil), acc...), Str(f[:i]))
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0", f[j]) >= 0 {
			j++
		}
		flags := f[i+1 : j]
		w := j
		for j < len(f) && f[j] >= '0' && f[j] <= '9' {
			j++
		}
		width := f[w:j]
		p := j
		if j < len(f) && f[j] == '.' {
			j++
			for j < len(f) && f[j] >= '0' && f[j] <= '9' {
				j++
			}
		}
		prec := f[p:j]
		if j >= len(f) {
			rec(s, "", n, append(acc, Str("%!(NOVERB)")))
			return
		}
		verb := rune(f[j])
		rest := f[j+1:]
		if verb == '%' {
			rec(s, rest, n, append(append([]*Term(nil), acc...), Str("%")))
			return
		}
		if n >= len(args) {
			rec(s, rest, n, append(append([]*Term(nil), acc...), Str("%!"+string(verb)+"(MISSING)")))
			return
		}
		fin := func(s *State, t *Term) {
			switch {
			case prec != "" || strings.ContainsAny(flags, "+# "):
				t = App("fmtspec", SStr, Str(flags+"|"+width+"|"+prec), t)
			case width != "" && strings.Contains(flags, "-"):
				t = App("padr", SStr, Int(atoi(width)), t)
			case width != "" && strings.Contains(flags, "0"):
				t = App("pad0", SStr, Int(atoi(width)), t)
			case width != "":
				t = App("padl", SStr, Int(atoi(width)), t)
			}
			rec(s, rest, n+1, append(append([]*Term(nil), acc...), t))
		}
		if verb == 'q' || verb == 'x' || verb == 'T' || verb == 'p' || verb == 'f' || verb == 'g' || verb == 'e' || verb == 'U' || verb == 't' && false {
			fin(s, App("text_"+string(verb), SStr, args[n]))
			return
		}
		if verb == 'd' {
			// %d of a non-integer is not a number
			if a := args[n]; !(a.op == "app" && strings.HasPrefix(a.name, "box:") && a.args[0].sort == SInt) {
				fin(s, App("text_d", SStr, a))
				return
			}
		}
		if verb == 's' {
			if a := args[n]; a.op == "app" && strings.HasPrefix(a.name, "box:") && a.args[0].sort == SInt {
				t := boxTypes[a.name]
				if types.NewMethodSet(t).Lookup(nil, "String") == nil {
					fin(s, App("text_s_int", SStr, a))
					return
				}
			}
		}
		x.textOf(fr, s, args[n], verb, pos, fin)
	}
	rec(st, f, 0, nil)
}

func atoi(s string) int64 {
	var n int64
	fmt.Sscan(s, &n)
	return n
}

// sortModel: in-place sorting as a permutation with the order the comparison gives
func (x *FnRun) sortModel(fr *Frame, st *State, v Val, less *Val, stable bool, pos token.Pos, k func(*State)) {
	s := v.T
	es := s.sort.Elem()
	r := Fresh("sorted", s.sort)
	n := SeqLen(s)
	st.assume(Eq(SeqLen(r), n))
	pc, ic := ghostClass("sortPerm", ArrOf(SInt, SInt)), ghostClass("sortInv", ArrOf(SInt, SInt))
	pm, im := Fresh("sortPerm", ArrOf(SInt, SInt)), Fresh("sortInv", ArrOf(SInt, SInt))
	st.heap[pc], st.heap[ic] = pm, im
	x.record(pc, nil)
	x.record(ic, nil)
	i, j := BoundVar("i", SInt), BoundVar("j", SInt)
	in := func(t *Term) *Term { return And(Le(Int(0), t), Lt(t, n)) }
	pi := Select(pm, i)
	st.assume(Forall([]*Term{i}, Imp(in(i), And(in(pi), Eq(SeqAt(r, i), SeqAt(s, pi)), Eq(Select(im, pi), i))), []*Term{SeqAt(r, i)}, []*Term{pi}))
	ij := Select(im, j)
	st.assume(Forall([]*Term{j}, Imp(in(j), And(in(ij), Eq(SeqAt(s, j), SeqAt(r, ij)), Eq(Select(pm, ij), j))), []*Term{SeqAt(s, j)}, []*Term{ij}))
	if n == Int(0) {
		k(st)
		return
	}
	x.mutateSlice(st, v, r)
	if less == nil {
		if es != SStr {
			unsup("sort.Strings of %s", es)
		}
		a, b := BoundVar("a", SInt), BoundVar("b", SInt)
		st.assume(Forall([]*Term{a, b}, Imp(And(Le(Int(0), a), Lt(a, b), Lt(b, n)), Not(App("strlt", SBool, SeqAt(r, b), SeqAt(r, a)))), []*Term{SeqAt(r, a), SeqAt(r, b)}))
		k(st)
		return
	}
	if less.Fn == nil {
		unsup("sort with an unknown comparison")
	}
	ca, cb := Fresh("a", SInt), Fresh("b", SInt)
	mark := bornCount
	lab := x.evalPure(fr, st, less.Fn, []*Term{ca, cb}, And(in(ca), in(cb)), pos)
	if newerThan(lab, mark) {
		unsup("comparison is not a function of its arguments")
	}
	a, b := BoundVar("a", SInt), BoundVar("b", SInt)
	// the comparison looks at the elements only, and orders them strictly and weakly
	ea, eb := Fresh("ea", es), Fresh("eb", es)
	el := Subst(lab, map[*Term]*Term{SeqAt(r, ca): ea, SeqAt(r, cb): eb})
	if mentionsTerm(el, ca) || mentionsTerm(el, cb) {
		unsup("comparison depends on more than the two elements")
	}
	sub := func(u, w *Term) *Term { return Subst(lab, map[*Term]*Term{ca: u, cb: w}) }
	if x.quiet == 0 {
		c1, c2, c3 := Fresh("c", SInt), Fresh("c", SInt), Fresh("c", SInt)
		w := st.clone()
		w.assume(And(in(c1), in(c2), in(c3)))
		var props []string
		if x.c != nil {
			props = x.c.Props
		}
		tags := x.v.always(props)
		x.oblige(w, "sort", "the comparison passed to sort never puts an element before itself", tags, Not(sub(c1, c1)), x.pos(pos))
		x.oblige(w, "sort", "the comparison passed to sort is transitive", tags, Imp(And(sub(c1, c2), sub(c2, c3)), sub(c1, c3)), x.pos(pos))
		x.oblige(w, "sort", "elements the comparison does not tell apart form groups", tags, Imp(And(Not(sub(c1, c2)), Not(sub(c2, c1)), Not(sub(c2, c3)), Not(sub(c3, c2))), And(Not(sub(c1, c3)), Not(sub(c3, c1)))), x.pos(pos))
	}
	st.assume(Forall([]*Term{a, b}, Imp(And(Le(Int(0), a), Lt(a, b), Lt(b, n)), Not(sub(b, a))), []*Term{SeqAt(r, a), SeqAt(r, b)}))
	if stable {
		st.assume(Forall([]*Term{a, b}, Imp(And(Le(Int(0), a), Lt(a, b), Lt(b, n), Not(sub(a, b))), Lt(Select(pm, a), Select(pm, b))), []*Term{SeqAt(r, a), SeqAt(r, b)}, []*Term{Select(pm, a), Select(pm, b)}))
	}
	k(st)
}

// evalPure evaluates a side-effect free function value to a term
func (x *FnRun) evalPure(fr *Frame, st *State, f *FuncVal, args []*Term, pre *Term, pos token.Pos) *Term {
	s := st.clone()
	s.assume(pre)
	base := len(s.pc)
	s.loops = nil
	var as []Val
	for i, a := range args {
		as = append(as, x.fromTerm(a, f.fn.Params[i].Type()))
	}
	type outc struct {
		cond, res *Term
	}
	var outs []outc
	h0 := map[string]*Term{}
	for c, t := range s.heap {
		h0[c] = t
	}
	x.evalPureDepth++
	x.callFn(fr, s, f, as, pos, func(s2 *State, r Val) {
		for c, t := range s2.heap {
			if o, ok := h0[c]; ok && o != t && c != "ghost:alloc" && !strings.HasPrefix(c, "cell:") && !strings.HasPrefix(c, "ghost:sort") {
				unsup("function value %s has side effects on %s", f.fn, c)
			}
		}
		outs = append(outs, outc{And(s2.pc[base:]...), r.T})
	})
	x.evalPureDepth--
	if len(outs) == 0 {
		unsup("function value %s never returns", f.fn)
	}
	r := outs[len(outs)-1].res
	for i := len(outs) - 2; i >= 0; i-- {
		r = Ite(outs[i].cond, outs[i].res, r)
	}
	return r
}

func mentionsTerm(t, u *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if t == u {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
