package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// RecFun is a spec function with a definition that is unfolded on ground applications.
type RecFun struct {
	Name   string
	Params []*Term
	Body   *Term
	Sealed bool
}

var recFuns = map[string]*RecFun{}

// Axiom is a quantified fact included whenever all its Needs functions occur in a query.
type Axiom struct {
	Name  string
	F     *Term
	Needs []string
	Lemma bool
	Order int // position in the lemma list
}

var axioms []*Axiom

type smtWriter struct {
	decls   bytes.Buffer
	body    bytes.Buffer
	sorts   map[Sort]bool
	dts     []Sort
	dtseen  map[Sort]bool
	seqs    map[Sort]bool
	funcs   map[string]bool
	vars    map[*Term]bool
	strs    map[*Term]bool
	names   map[*Term]string
	refs    map[*Term]int
	boxes   map[Sort]bool
	hasCat  bool
	opsUsed map[string]bool
	pgs     map[*Term]string // ground terms inside patterns, named by constants
	pgList  []*Term
}

func newWriter() *smtWriter {
	return &smtWriter{sorts: map[Sort]bool{}, dtseen: map[Sort]bool{}, seqs: map[Sort]bool{}, funcs: map[string]bool{}, vars: map[*Term]bool{}, strs: map[*Term]bool{}, names: map[*Term]string{}, refs: map[*Term]int{}, opsUsed: map[string]bool{}, pgs: map[*Term]string{}}
}

// rewritten: t or a part of it is an interpreted operation that solvers rewrite
func (w *smtWriter) rewritten(t *Term) bool {
	switch t.op {
	case "store", "ite", "+", "*":
		return true
	}
	for _, a := range t.args {
		if w.rewritten(a) {
			return true
		}
	}
	return false
}

// patTerm: the term as printed inside a pattern, where compound ground terms are
// constants, so that solvers match them up to equality
func (w *smtWriter) patTerm(t *Term) string {
	if len(t.args) == 0 {
		return w.str(t)
	}
	if len(t.fv) == 0 && !w.rewritten(t) {
		return w.str(t)
	}
	if len(t.fv) == 0 {
		n, ok := w.pgs[t]
		if !ok {
			n = fmt.Sprintf("pg$%d", len(w.pgs))
			w.pgs[t] = n
			w.pgList = append(w.pgList, t)
		}
		return n
	}
	m := map[*Term]string{}
	for _, a := range t.args {
		if _, twice := m[a]; twice {
			continue
		}
		s := w.patTerm(a)
		if old, ok := w.names[a]; ok {
			m[a] = old
		} else {
			m[a] = ""
		}
		w.names[a] = s
	}
	r := w.raw(t)
	for a, o := range m {
		if o == "" {
			delete(w.names, a)
		} else {
			w.names[a] = o
		}
	}
	return r
}

func (w *smtWriter) sortName(s Sort) string {
	switch {
	case s == SInt || s == SBool:
		return string(s)
	case s.IsSeq():
		w.noteSeq(s)
		return "Seq_" + mangle(string(s.Elem()))
	case s.IsArr():
		a, b := s.ArrParts()
		return "(Array " + w.sortName(a) + " " + w.sortName(b) + ")"
	}
	if d := datatypes[s]; d != nil {
		w.noteDT(s)
		return "D_" + mangle(string(s))
	}
	if s == SRef {
		return "Ref"
	}
	w.sorts[s] = true
	return "U_" + mangle(string(s))
}
func mangle(s string) string {
	r := strings.NewReplacer("<", "_L", ">", "_R", "|", "_B", ".", "_", "/", "_", "*", "p", "[", "s", "]", "_", " ", "_", "{", "_", "}", "_", "(", "_", ")", "_", ",", "_", "-", "_")
	return r.Replace(s)
}
func (w *smtWriter) noteSeq(s Sort) {
	if !w.seqs[s] {
		w.seqs[s] = true
		w.sortName(s.Elem())
	}
}
func (w *smtWriter) noteDT(s Sort) {
	if w.dtseen[s] {
		return
	}
	w.dtseen[s] = true
	for _, f := range datatypes[s].Fields {
		w.sortName(f.Sort)
	}
	w.dts = append(w.dts, s)
}

func sym(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '@' || c == '!' || c == '?') {
			return "|" + n + "|"
		}
	}
	return n
}

// collect walks terms to find declarations and reference counts
func (w *smtWriter) collect(t *Term) {
	w.refs[t]++
	if w.refs[t] > 1 {
		return
	}
	w.sortName(t.sort)
	switch t.op {
	case "var":
		w.vars[t] = true
	case "str":
		w.strs[t] = true
	case "app":
		w.funcs[t.name] = true
	case "cat", "slen":
		w.hasCat = true
	}
	for _, b := range t.bound {
		w.sortName(b.sort)
	}
	for _, p := range t.pats {
		for _, x := range p {
			w.collect(x)
		}
	}
	for _, a := range t.args {
		w.collect(a)
	}
}

func (w *smtWriter) str(t *Term) string {
	if n, ok := w.names[t]; ok {
		return n
	}
	return w.raw(t)
}

func (w *smtWriter) raw(t *Term) string {
	var a []string
	for _, x := range t.args {
		a = append(a, w.str(x))
	}
	seq := func() string {
		s := t.sort
		if !s.IsSeq() {
			s = t.args[0].sort
		}
		return mangle(string(s.Elem()))
	}
	switch t.op {
	case "var":
		return sym(t.name)
	case "bool":
		return t.name
	case "int":
		if t.n.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.name, "-") + ")"
		}
		return t.name
	case "str":
		return w.strName(t)
	case "not", "and", "or", "=>", "ite", "=", "+", "*", "<=", "div", "select", "store", "mkref", "rid", "rpath":
		return "(" + t.op + " " + strings.Join(a, " ") + ")"
	case "constarr":
		return "((as const " + w.sortName(t.sort) + ") " + a[0] + ")"
	case "mk":
		if len(a) == 0 {
			return "mk_" + mangle(t.name)
		}
		return "(mk_" + mangle(t.name) + " " + strings.Join(a, " ") + ")"
	case "sel":
		return "(" + mangle(string(t.args[0].sort)) + "." + mangle(t.name) + " " + a[0] + ")"
	case "empty":
		return "empty_" + seq()
	case "unit":
		return "(unit_" + seq() + " " + a[0] + ")"
	case "app++":
		r := a[len(a)-1]
		for i := len(a) - 2; i >= 0; i-- {
			r = "(app_" + seq() + " " + a[i] + " " + r + ")"
		}
		return r
	case "len", "at", "drop", "take":
		return "(" + t.op + "_" + seq() + " " + strings.Join(a, " ") + ")"
	case "cat":
		r := a[len(a)-1]
		for i := len(a) - 2; i >= 0; i-- {
			r = "(scat " + a[i] + " " + r + ")"
		}
		return r
	case "slen":
		return "(slen " + a[0] + ")"
	case "app":
		if len(a) == 0 {
			return sym(t.name)
		}
		return "(" + sym(t.name) + " " + strings.Join(a, " ") + ")"
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			fmt.Fprintf(&sb, "(%s %s)", sym(b.name), w.sortName(b.sort))
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! " + a[0])
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(w.patTerm(x))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(a[0])
		}
		sb.WriteString(")")
		return sb.String()
	}
	panic("print " + t.op)
}

func (w *smtWriter) strName(t *Term) string {
	if t.name == "" {
		return "str_empty"
	}
	h := sha256.Sum256([]byte(t.name))
	return fmt.Sprintf("str_%x", h[:6])
}

func hasQuantVar(t *Term) bool { return len(t.fv) > 0 }

const seqAxioms = `
(declare-fun len_E (SEQ) Int)
(declare-fun at_E (SEQ Int) ELT)
(declare-const empty_E SEQ)
(declare-fun unit_E (ELT) SEQ)
(declare-fun app_E (SEQ SEQ) SEQ)
(declare-fun drop_E (SEQ Int) SEQ)
(declare-fun take_E (SEQ Int) SEQ)
(declare-fun diff_E (SEQ SEQ) Int)
(assert (forall ((s SEQ)) (! (and (>= (len_E s) 0) (=> (= (len_E s) 0) (= s empty_E))) :pattern ((len_E s)))))
(assert (= (len_E empty_E) 0))
(assert (forall ((x ELT)) (! (and (= (len_E (unit_E x)) 1) (= (at_E (unit_E x) 0) x)) :pattern ((unit_E x)))))
`
const seqAppAxioms = `
(assert (forall ((s SEQ) (t SEQ)) (! (= (len_E (app_E s t)) (+ (len_E s) (len_E t))) :pattern ((app_E s t)))))
(assert (forall ((s SEQ) (t SEQ) (i Int)) (! (=> (>= i 0) (= (at_E (app_E s t) i) (ite (< i (len_E s)) (at_E s i) (at_E t (- i (len_E s)))))) :pattern ((at_E (app_E s t) i)))))
(assert (forall ((s SEQ)) (! (= (app_E s empty_E) s) :pattern ((app_E s empty_E)))))
(assert (forall ((s SEQ)) (! (= (app_E empty_E s) s) :pattern ((app_E empty_E s)))))
(assert (forall ((a SEQ) (b SEQ) (c SEQ)) (! (= (app_E (app_E a b) c) (app_E a (app_E b c))) :pattern ((app_E (app_E a b) c)))))
`
const seqDropAxioms = `
(assert (forall ((s SEQ) (n Int)) (! (and (=> (<= n 0) (= (drop_E s n) s)) (=> (>= n (len_E s)) (= (drop_E s n) empty_E)) (=> (and (<= 0 n) (<= n (len_E s))) (= (len_E (drop_E s n)) (- (len_E s) n)))) :pattern ((drop_E s n)))))
(assert (forall ((s SEQ) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= n (len_E s)) (<= 0 i) (< (+ n i) (len_E s))) (= (at_E (drop_E s n) i) (at_E s (+ n i)))) :pattern ((at_E (drop_E s n) i)))))
(assert (forall ((s SEQ) (n Int) (m Int)) (! (=> (and (<= 0 n) (<= 0 m) (<= (+ n m) (len_E s))) (= (drop_E (drop_E s n) m) (drop_E s (+ n m)))) :pattern ((drop_E (drop_E s n) m)))))
`
const seqDropAppAxioms = `
(assert (forall ((s SEQ) (t SEQ) (n Int)) (! (and (=> (>= n (len_E s)) (= (drop_E (app_E s t) n) (drop_E t (- n (len_E s))))) (=> (and (<= 0 n) (< n (len_E s))) (= (drop_E (app_E s t) n) (app_E (drop_E s n) t)))) :pattern ((drop_E (app_E s t) n)))))
`
const seqTakeAxioms = `
(assert (forall ((s SEQ) (n Int)) (! (and (=> (<= n 0) (= (take_E s n) empty_E)) (=> (>= n (len_E s)) (= (take_E s n) s)) (=> (and (<= 0 n) (<= n (len_E s))) (= (len_E (take_E s n)) n))) :pattern ((take_E s n)))))
(assert (forall ((s SEQ) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= n (len_E s))) (= (at_E (take_E s n) i) (at_E s i))) :pattern ((at_E (take_E s n) i)))))
(assert (forall ((s SEQ) (n Int) (m Int)) (! (=> (and (<= 0 n) (<= 0 m)) (= (take_E (take_E s n) m) (take_E s (ite (<= n m) n m)))) :pattern ((take_E (take_E s n) m)))))
`
const seqTakeAppAxioms = `
(assert (forall ((s SEQ) (t SEQ) (n Int)) (! (and (=> (<= n (len_E s)) (= (take_E (app_E s t) n) (take_E s n))) (=> (>= n (len_E s)) (= (take_E (app_E s t) n) (app_E s (take_E t (- n (len_E s))))))) :pattern ((take_E (app_E s t) n)))))
`
const seqTakeDropAxioms = `
(assert (forall ((s SEQ) (n Int)) (! (=> (and (<= 0 n) (<= n (len_E s))) (= (app_E (take_E s n) (drop_E s n)) s)) :pattern ((take_E s n) (drop_E s n)))))
`

// buildQuery renders hyps && !goal.
func buildQuery(hyps []*Term, goal *Term, fuel int, maxAx int) (string, []string) {
	var usedLemmas []string
	var asserts []*Term
	asserts = append(asserts, hyps...)
	asserts = append(asserts, Not(goal))

	// ground unfolding of recursive spec functions
	gen := map[*Term]int{}
	type item struct {
		t *Term
		g int
	}
	var queue []item
	seen := map[*Term]bool{}
	usedFun := map[string]bool{}
	var scan func(t *Term, g int)
	scan = func(t *Term, g int) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" {
			usedFun[t.name] = true
			if rf := recFuns[t.name]; rf != nil && !rf.Sealed && len(t.fv) == 0 {
				if _, ok := gen[t]; !ok {
					gen[t] = g
					queue = append(queue, item{t, g})
				}
			}
		} else if t.op == "at" || t.op == "drop" || t.op == "take" || t.op == "app++" || t.op == "cat" {
			usedFun["%"+t.op] = true
		}
		for _, a := range t.args {
			scan(a, g)
		}
	}
	for _, a := range asserts {
		scan(a, 0)
	}
	included := map[*Axiom]bool{}
	addAxioms := func(g int) {
		for ch := true; ch; {
			ch = false
			for _, ax := range axioms {
				if included[ax] || maxAx > 0 && ax.Order >= maxAx-1 && ax.Lemma {
					continue
				}
				ok := true
				for _, n := range ax.Needs {
					if !usedFun[n] {
						ok = false
					}
				}
				if !ok {
					continue
				}
				included[ax] = true
				usedLemmas = append(usedLemmas, ax.Name)
				ch = true
				asserts = append(asserts, ax.F)
				scan(ax.F, g)
			}
		}
	}
	addAxioms(0)
	for len(queue) > 0 {
		it := queue[0]
		queue = queue[1:]
		if it.g >= fuel {
			continue
		}
		rf := recFuns[it.t.name]
		m := map[*Term]*Term{}
		for i, p := range rf.Params {
			m[p] = it.t.args[i]
		}
		inst := Eq(it.t, Subst(rf.Body, m))
		asserts = append(asserts, inst)
		scan(inst, it.g+1)
		addAxioms(it.g + 1)
	}
	// extensionality instances for sequence equalities in the goal
	var seqEqs []*Term
	seenEq := map[*Term]bool{}
	var findEq func(t *Term)
	findEq = func(t *Term) {
		if seenEq[t] {
			return
		}
		seenEq[t] = true
		if t.op == "=" && t.args[0].sort.IsSeq() && len(t.fv) == 0 {
			seqEqs = append(seqEqs, t)
		}
		for _, a := range t.args {
			findEq(a)
		}
	}
	findEq(goal)

	w := newWriter()
	for _, a := range asserts {
		w.collect(a)
	}
	// shared ground subterms get names
	var defs bytes.Buffer
	var body bytes.Buffer
	done := map[*Term]bool{}
	nd := 0
	var def func(t *Term)
	def = func(t *Term) {
		if done[t] {
			return
		}
		done[t] = true
		for _, p := range t.pats {
			for _, x := range p {
				def(x)
			}
		}
		for _, a := range t.args {
			def(a)
		}
		if w.refs[t] > 1 && len(t.args) > 0 && len(t.fv) == 0 && t.size > 3 {
			nd++
			n := fmt.Sprintf("$%d", nd)
			fmt.Fprintf(&defs, "(define-fun %s () %s %s)\n", n, w.sortName(t.sort), w.raw(t))
			w.names[t] = n
		}
	}
	for _, a := range asserts {
		def(a)
		fmt.Fprintf(&body, "(assert %s)\n", w.str(a))
	}
	for _, e := range seqEqs {
		s, t := w.str(e.args[0]), w.str(e.args[1])
		n := mangle(string(e.args[0].sort.Elem()))
		d := fmt.Sprintf("(diff_%s %s %s)", n, s, t)
		fmt.Fprintf(&body, "(assert (or (= %s %s) (not (= (len_%s %s) (len_%s %s))) (and (<= 0 %s) (< %s (len_%s %s)) (not (= (at_%s %s %s) (at_%s %s %s))))))\n",
			s, t, n, s, n, t, d, d, n, s, n, s, d, n, t, d)
	}
	usedOps := map[string]bool{}
	for t := range w.refs {
		switch t.op {
		case "app++", "drop", "take":
			s := t.sort
			usedOps[t.op+string(s)] = true
		}
	}
	// function declarations (may add sorts)
	var fd bytes.Buffer
	var fnames []string
	for f := range w.funcs {
		fnames = append(fnames, f)
	}
	sort.Strings(fnames)
	for _, f := range fnames {
		d := funcDecls[f]
		var as []string
		for _, a := range d.Args {
			as = append(as, w.sortName(a))
		}
		fmt.Fprintf(&fd, "(declare-fun %s (%s) %s)\n", sym(f), strings.Join(as, " "), w.sortName(d.Ret))
	}
	var vs []*Term
	for v := range w.vars {
		if len(v.fv) == 0 {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return termLess(vs[i], vs[j]) })
	for _, v := range vs {
		fmt.Fprintf(&fd, "(declare-const %s %s)\n", sym(v.name), w.sortName(v.sort))
	}
	if len(w.strs) > 0 || w.hasCat {
		w.sorts[SStr] = true
	}
	var out bytes.Buffer
	out.WriteString("(set-logic ALL)\n")
	out.WriteString("(declare-datatypes ((Ref 0)) (((mkref (rid Int) (rpath Int)))))\n")
	var ss []string
	for s := range w.sorts {
		ss = append(ss, string(s))
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&out, "(declare-sort U_%s 0)\n", mangle(s))
	}
	var sq []string
	for s := range w.seqs {
		sq = append(sq, string(s))
	}
	sort.Strings(sq)
	for _, s := range sq {
		fmt.Fprintf(&out, "(declare-sort Seq_%s 0)\n", mangle(string(Sort(s).Elem())))
	}
	for _, s := range w.dts {
		d := datatypes[s]
		m := mangle(string(s))
		fmt.Fprintf(&out, "(declare-datatypes ((D_%s 0)) (((mk_%s", m, m)
		for _, f := range d.Fields {
			fmt.Fprintf(&out, " (%s.%s %s)", m, mangle(f.Name), w.sortName(f.Sort))
		}
		out.WriteString("))))\n")
	}
	for _, s := range sq {
		S := Sort(s)
		ax := seqAxioms
		if usedOps["app++"+s] || usedOps["take"+s] && usedOps["drop"+s] {
			ax += seqAppAxioms
		}
		if usedOps["drop"+s] {
			ax += seqDropAxioms
			if usedOps["app++"+s] {
				ax += seqDropAppAxioms
			}
		}
		if usedOps["take"+s] {
			ax += seqTakeAxioms
			if usedOps["app++"+s] {
				ax += seqTakeAppAxioms
			}
			if usedOps["drop"+s] {
				ax += seqTakeDropAxioms
			}
		}
		n := mangle(string(S.Elem()))
		r := strings.NewReplacer("_E", "_"+n, "SEQ", "Seq_"+n, "ELT", w.sortName(S.Elem()))
		out.WriteString(r.Replace(ax))
	}
	if w.sorts[SStr] {
		out.WriteString("(declare-const str_empty U_Str)\n(declare-fun slen (U_Str) Int)\n(declare-fun scat (U_Str U_Str) U_Str)\n(assert (= (slen str_empty) 0))\n")
		out.WriteString("(assert (forall ((s U_Str)) (! (and (>= (slen s) 0) (=> (= (slen s) 0) (= s str_empty))) :pattern ((slen s)))))\n")
		if w.hasCat {
			out.WriteString("(assert (forall ((s U_Str) (t U_Str)) (! (= (slen (scat s t)) (+ (slen s) (slen t))) :pattern ((scat s t)))))\n")
			out.WriteString("(assert (forall ((s U_Str)) (! (= (scat s str_empty) s) :pattern ((scat s str_empty)))))\n")
			out.WriteString("(assert (forall ((s U_Str)) (! (= (scat str_empty s) s) :pattern ((scat str_empty s)))))\n")
			out.WriteString("(assert (forall ((a U_Str) (b U_Str) (c U_Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))))\n")
		}
		var names []string
		var sts []*Term
		for t := range w.strs {
			sts = append(sts, t)
		}
		sort.Slice(sts, func(i, j int) bool { return sts[i].name < sts[j].name })
		names = append(names, "str_empty")
		for _, t := range sts {
			if t.name == "" {
				continue
			}
			n := w.strName(t)
			fmt.Fprintf(&out, "(declare-const %s U_Str) ; %s\n(assert (= (slen %s) %d))\n", n, strings.ReplaceAll(strconv.Quote(t.name), "\n", " "), n, len(t.name))
			names = append(names, n)
		}
		if len(names) > 1 {
			fmt.Fprintf(&out, "(assert (distinct %s))\n", strings.Join(names, " "))
		}
	}
	out.Write(fd.Bytes())
	if w.funcs["sat"] {
		out.WriteString("(assert (forall ((s U_Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))\n")
		var sts []*Term
		for t := range w.strs {
			sts = append(sts, t)
		}
		sort.Slice(sts, func(i, j int) bool { return sts[i].name < sts[j].name })
		for _, t := range sts {
			if len(t.name) <= 24 {
				for i := 0; i < len(t.name); i++ {
					fmt.Fprintf(&out, "(assert (= (sat %s %d) %d))\n", w.strName(t), i, t.name[i])
				}
			}
		}
		if w.hasCat {
			out.WriteString("(assert (forall ((s U_Str) (t U_Str) (i Int)) (! (= (sat (scat s t) i) (ite (< i (slen s)) (sat s i) (sat t (- i (slen s))))) :pattern ((sat (scat s t) i)))))\n")
		}
		if w.funcs["ssub"] {
			out.WriteString("(assert (forall ((s U_Str) (lo Int) (hi Int) (i Int)) (! (=> (and (<= 0 lo) (<= lo hi) (<= hi (slen s)) (<= 0 i) (< i (- hi lo))) (= (sat (ssub s lo hi) i) (sat s (+ lo i)))) :pattern ((sat (ssub s lo hi) i)))))\n")
		}
	}
	if w.funcs["ssub"] {
		out.WriteString("(assert (forall ((s U_Str) (lo Int) (hi Int)) (! (and (=> (and (<= 0 lo) (<= lo hi) (<= hi (slen s))) (= (slen (ssub s lo hi)) (- hi lo))) (=> (and (= lo 0) (= hi (slen s))) (= (ssub s lo hi) s))) :pattern ((ssub s lo hi)))))\n")
	}
	if w.funcs["ssub"] && w.hasCat {
		out.WriteString("(assert (forall ((s U_Str) (t U_Str) (lo Int) (hi Int)) (! (=> (and (<= 0 lo) (<= lo hi) (<= hi (+ (slen s) (slen t)))) (= (ssub (scat s t) lo hi) (ite (<= hi (slen s)) (ssub s lo hi) (ite (<= (slen s) lo) (ssub t (- lo (slen s)) (- hi (slen s))) (scat (ssub s lo (slen s)) (ssub t 0 (- hi (slen s)))))))) :pattern ((ssub (scat s t) lo hi)))))\n")
	}
	if w.funcs["strlt"] { // a strict total order
		out.WriteString("(assert (forall ((s U_Str) (t U_Str)) (! (and (not (and (strlt s t) (strlt t s))) (or (= s t) (strlt s t) (strlt t s))) :pattern ((strlt s t)))))\n")
		out.WriteString("(assert (forall ((s U_Str) (t U_Str) (u U_Str)) (! (=> (and (strlt s t) (strlt t u)) (strlt s u)) :pattern ((strlt s t) (strlt t u)))))\n")
	}
	out.Write(defs.Bytes())
	for i := 0; i < len(w.pgList); i++ {
		t := w.pgList[i]
		fmt.Fprintf(&out, "(declare-const %s %s)\n(assert (= %s %s))\n", w.pgs[t], w.sortName(t.sort), w.pgs[t], w.str(t))
	}
	out.Write(body.Bytes())
	out.WriteString("(check-sat)\n")
	return out.String(), usedLemmas
}

// ---- solving

type Result struct {
	Status  string // unsat, sat, unknown
	Backend string
	Secs    float64
	Query   string
}

var solveCache sync.Map
var solverSecs int64 // microseconds
var solverCalls int64
var scratchDir string
var solveSem = make(chan struct{}, 8)
var backendCount sync.Map

type solverSpec struct {
	name string
	args []string
}

func runSolver(ctx context.Context, sp solverSpec, file string) (string, float64) {
	t0 := time.Now()
	c := exec.CommandContext(ctx, sp.args[0], append(append([]string{}, sp.args[1:]...), file)...)
	var o bytes.Buffer
	c.Stdout = &o
	c.Stderr = &o
	c.Run()
	d := time.Since(t0).Seconds()
	s := strings.TrimSpace(o.String())
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if s != "unsat" && s != "sat" {
		if strings.Contains(s, "error") && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, sp.name, s, file)
			exec.Command("cp", file, "/tmp/govc_err.smt2").Run()
		}
		s = "unknown"
	}
	return s, d
}

func z3args(bin string, ms int, seed int) []string {
	// the limit is on the solver's own count of steps, so that a busy machine changes nothing;
	// the time limit is only a stop for queries whose steps are unusually slow
	w := 2*ms + 1000
	a := []string{bin, "-T:" + strconv.Itoa(w/1000+1), "-t:" + strconv.Itoa(w), "rlimit=" + strconv.Itoa(2500*ms), "smt.auto_config=false", "smt.mbqi=false"}
	if bin == "z3-new" && seed == 0 {
		a = append(a, "smt.solve_eqs=false")
	}
	if seed > 0 {
		// long texts need axioms applied on top of one another more often than z3 does by default
		a = append(a, "smt.random_seed="+strconv.Itoa(seed))
		if seed == 9 {
			a = append(a, "smt.qi.eager_threshold=100")
		}
	}
	return a
}

type query struct {
	done   *Result
	text   string
	lemmas []string
}

var usedLemmaMu sync.Mutex
var usedLemmas = map[string]bool{}

var skolemCache = map[*Term]*Term{}

// skolem replaces the quantifiers at the top of the propositional structure that ask for a
// witness by fresh constants, so that ground unfolding sees them: universal ones in what is
// to be proved, existential ones in what is known
func skolem(t *Term, goal bool) *Term {
	switch t.op {
	case "not":
		return Not(skolem(t.args[0], !goal))
	case "and", "or":
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = skolem(a, goal)
			ch = ch || as[i] != a
		}
		if !ch {
			return t
		}
		if t.op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "=>":
		a, b := skolem(t.args[0], !goal), skolem(t.args[1], goal)
		if a == t.args[0] && b == t.args[1] {
			return t
		}
		return Imp(a, b)
	case "forall", "exists":
		if (t.op == "forall") != goal || len(t.fv) > 0 {
			return t
		}
		if r := skolemCache[t]; r != nil {
			return r
		}
		m := map[*Term]*Term{}
		for _, b := range t.bound {
			m[b] = Fresh("sk$"+sanitize(b.name), b.sort)
		}
		r := skolem(Subst(t.args[0], m), goal)
		skolemCache[t] = r
		return r
	}
	return t
}

// prepareQuery translates hyps |= goal; it needs termMu
func prepareQuery(hyps []*Term, goal *Term, maxAx int) *query {
	if goal == True {
		return &query{done: &Result{Status: "unsat", Backend: "simplifier"}}
	}
	for _, h := range hyps {
		if h == False || h == goal {
			return &query{done: &Result{Status: "unsat", Backend: "simplifier"}}
		}
	}
	q := &query{}
	hs := make([]*Term, len(hyps))
	for i, h := range hyps {
		hs[i] = skolem(h, false)
	}
	q.text, q.lemmas = buildQuery(hs, skolem(goal, true), 3, maxAx)
	return q
}

// Solve decides hyps |= goal with little effort; the caller holds termMu
func Solve(hyps []*Term, goal *Term, effort int) Result {
	return prepareQuery(hyps, goal, 0).solve(effort)
}

var solving sync.Map

func (qq *query) solve(effort int) Result {
	if qq.done != nil {
		if qq.done.Status == "unsat" {
			v, _ := backendCount.LoadOrStore(qq.done.Backend, new(int64))
			atomic.AddInt64(v.(*int64), 1)
		}
		return *qq.done
	}
	usedLemmaMu.Lock()
	for _, l := range qq.lemmas {
		usedLemmas[l] = true
	}
	usedLemmaMu.Unlock()
	q := qq.text
	h := sha256.Sum256([]byte(q))
	key := fmt.Sprintf("%x-%d", h[:12], effort)
	if r, ok := solveCache.Load(key); ok {
		return r.(Result)
	}
	if effort > 0 {
		if r, ok := solveCache.Load(fmt.Sprintf("%x-0", h[:12])); ok && r.(Result).Status == "unsat" {
			return r.(Result)
		}
	}
	// the same query may be asked by several at the same time: one of them asks
	mine := make(chan struct{})
	if w, busy := solving.LoadOrStore(key, mine); busy {
		<-w.(chan struct{})
		if r, ok := solveCache.Load(key); ok {
			return r.(Result)
		}
		mine = nil
	}
	if mine != nil {
		defer close(mine)
	}
	solveSem <- struct{}{}
	defer func() { <-solveSem }()
	f := filepath.Join(scratchDir, key+".smt2")
	if mine == nil {
		f = filepath.Join(scratchDir, fmt.Sprintf("%s-%d.smt2", key, atomic.AddInt64(&solverCalls, 0)))
	}
	if err := os.WriteFile(f, []byte(q), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
	}
	keep := os.Getenv("GOVC_KEEP") != ""
	if !keep {
		defer os.Remove(f)
	}
	var res Result
	total := 0.0
	stage := func(sps []solverSpec, ms int) bool {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(2*ms+2500)*time.Millisecond)
		defer cancel()
		type rr struct {
			s, b string
			d    float64
		}
		ch := make(chan rr, len(sps))
		for _, sp := range sps {
			go func(sp solverSpec) {
				s, d := runSolver(ctx, sp, f)
				ch <- rr{s, sp.name, d}
			}(sp)
		}
		for range sps {
			r := <-ch
			total += r.d
			atomic.AddInt64(&solverCalls, 1)
			if r.s == "unsat" || r.s == "sat" {
				res = Result{Status: r.s, Backend: r.b}
				return true
			}
		}
		return false
	}
	ok := false
	switch effort {
	case 0:
		ok = stage([]solverSpec{{"z3-new", z3args("z3-new", 1500, 0)}}, 1500)
	case 3:
		ok = stage([]solverSpec{{"z3-new", z3args("z3-new", 4000, 0)}, {"z3", z3args("z3", 4000, 0)}, {"z3-new(deep)", z3args("z3-new", 4000, 9)},
			{"cvc5", []string{"cvc5", "--tlimit=8000", "--full-saturate-quant"}}}, 4000)
	default:
		ok = stage([]solverSpec{{"z3-new", z3args("z3-new", 3000, 0)}}, 3000)
		if !ok {
			ms := 10000
			if effort > 1 {
				ms = 20000
			}
			ok = stage([]solverSpec{
				{"z3", z3args("z3", ms, 0)},
				{"cvc5", []string{"cvc5", "--tlimit=" + strconv.Itoa(2*ms), "--full-saturate-quant"}},
				{"z3-new(seed 7)", z3args("z3-new", ms, 7)},
				{"z3-new(deep)", z3args("z3-new", ms, 9)},
				{"z3-new(auto)", []string{"z3-new", "-T:" + strconv.Itoa(2*ms/1000+1), "-t:" + strconv.Itoa(2*ms), "rlimit=" + strconv.Itoa(2500*ms)}},
			}, ms)
		}
	}
	if !ok {
		res = Result{Status: "unknown", Backend: "none"}
	}
	res.Secs = total
	atomic.AddInt64(&solverSecs, int64(total*1e6))
	if keep {
		res.Query = f
	}
	if res.Status == "unsat" {
		v, _ := backendCount.LoadOrStore(res.Backend, new(int64))
		atomic.AddInt64(v.(*int64), 1)
	}
	solveCache.Store(key, res)
	return res
}
