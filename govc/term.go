package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sorts are strings: Int Bool Ref Str Any Fn Float Time, Seq<S>, (Array A B), D_<struct>
type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SRef   Sort = "Ref"
	SStr   Sort = "Str"
	SAny   Sort = "Any"
	SFn    Sort = "Fn"
	SFloat Sort = "Float"
	STime  Sort = "Time"
)

func SeqOf(s Sort) Sort    { return "Seq<" + s + ">" }
func (s Sort) IsSeq() bool { return strings.HasPrefix(string(s), "Seq<") }
func (s Sort) Elem() Sort  { return s[4 : len(s)-1] }
func ArrOf(a, b Sort) Sort { return "Arr<" + a + "|" + b + ">" }
func (s Sort) IsArr() bool { return strings.HasPrefix(string(s), "Arr<") }
func (s Sort) ArrParts() (Sort, Sort) {
	in := string(s[4 : len(s)-1])
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '<':
			d++
		case '>':
			d--
		case '|':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	id    int
	op    string // "var","int","str","app:<f>", builtin op
	name  string // variable / function / literal
	args  []*Term
	sort  Sort
	bound []*Term   // quantifiers
	pats  [][]*Term // patterns
	old   bool      // Ref variables known to be allocated at function entry
	n     *big.Int
	fv    map[*Term]bool // free bound-variables
	size  int
	born  int // when the variable was last generated
}

var termTab = map[string]*Term{}
var termCount int

func mk(op, name string, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('\x00')
	sb.WriteString(name)
	sb.WriteByte('\x00')
	sb.WriteString(string(sort))
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: op, name: name, sort: sort, args: args, size: 1}
	for _, a := range args {
		t.size += a.size
		if len(a.fv) > 0 {
			if t.fv == nil {
				t.fv = map[*Term]bool{}
			}
			for v := range a.fv {
				t.fv[v] = true
			}
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	termTab[k] = t
	return t
}

// termLess is a total order that does not depend on when a term was built
func termLess(a, b *Term) bool { return termCmp(a, b) < 0 }

func termCmp(a, b *Term) int {
	if a == b {
		return 0
	}
	if a.size != b.size {
		return a.size - b.size
	}
	if c := strings.Compare(a.op, b.op); c != 0 {
		return c
	}
	if c := strings.Compare(a.name, b.name); c != 0 {
		return c
	}
	if len(a.args) != len(b.args) {
		return len(a.args) - len(b.args)
	}
	for i := range a.args {
		if c := termCmp(a.args[i], b.args[i]); c != 0 {
			return c
		}
	}
	return a.id - b.id
}

var bornCount int
var freshCount = map[string]int{}

func Fresh(base string, s Sort) *Term {
	base = sanitize(base)
	freshCount[base]++
	t := mk("var", fmt.Sprintf("%s!%d", base, freshCount[base]), s)
	bornCount++
	t.born = bornCount
	return t
}

func BoundVar(base string, s Sort) *Term {
	base = sanitize(base)
	freshCount["?"+base]++
	t := mk("var", fmt.Sprintf("%s?%d", base, freshCount["?"+base]), s)
	t.fv = map[*Term]bool{t: true}
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '@' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

var True = mk("bool", "true", SBool)
var False = mk("bool", "false", SBool)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func BigInt(n *big.Int) *Term {
	t := mk("int", n.String(), SInt)
	t.n = n
	return t
}
func Int(n int64) *Term { return BigInt(big.NewInt(n)) }

func (t *Term) isInt() bool { return t.op == "int" }

// ---- boolean
func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", "", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False || seen[Not(a)] {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == False || seen[a] {
			return true
		}
		if a == True || seen[Not(a)] {
			return false
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "", SBool, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "", SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return mk("ite", "", a.sort, c, a, b)
}

// Distinct reports whether a and b are syntactically known to differ.
func Distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isInt() && b.isInt() {
		return true
	}
	if a.op == "str" && b.op == "str" {
		return a.name != b.name
	}
	if a.sort == SInt {
		ba, ka := splitConst(a)
		bb, kb := splitConst(b)
		return ba == bb && ka.Cmp(kb) != 0
	}
	if a.sort == SRef {
		return refDistinct(a, b)
	}
	if a.op == "mk" && b.op == "mk" && a.name == b.name {
		for i := range a.args {
			if Distinct(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	return false
}

// references: mkref(id,path)
func MkRef(id, path *Term) *Term {
	if id.op == "rid" && path.op == "rpath" && id.args[0] == path.args[0] {
		return id.args[0]
	}
	return mk("mkref", "", SRef, id, path)
}

var Nil = MkRef(Int(0), Int(0))

func Rid(r *Term) *Term {
	if r.op == "mkref" {
		return r.args[0]
	}
	return mk("rid", "", SInt, r)
}
func Rpath(r *Term) *Term {
	if r.op == "mkref" {
		return r.args[1]
	}
	return mk("rpath", "", SInt, r)
}

// SubRef is the address of the k-th field (a struct) of the object at r.
func SubRef(r *Term, k int) *Term {
	return MkRef(Rid(r), Add(Mul(Rpath(r), Int(64)), Int(int64(k+1))))
}

// alloc counters: variables named alloc!n are ordered in time
func allocSeq(t *Term) (int, *big.Int, bool) {
	b, k := splitConst(t)
	if b != nil && b.op == "var" && strings.HasPrefix(b.name, "alloc!") {
		n, _ := strconv.Atoi(b.name[6:])
		return n, k, true
	}
	return 0, nil, false
}

// oldRef: known to be allocated before (or nil), never equal to a reference allocated on this path
func isOldRef(r *Term) bool {
	switch r.op {
	case "var":
		return r.old
	case "mkref":
		id := r.args[0]
		if id.isInt() {
			return true
		}
		if id.op == "rid" {
			return isOldRef(id.args[0])
		}
	case "select":
		return r.args[0].op == "var" && r.args[0].old && isOldKey(r.args[1])
	case "at":
		return isOldSeq(r.args[0])
	case "ite":
		return isOldRef(r.args[1]) && isOldRef(r.args[2])
	}
	return false
}
func isOldKey(t *Term) bool {
	if t.sort == SRef {
		return isOldRef(t)
	}
	return true
}
func isOldSeq(t *Term) bool {
	switch t.op {
	case "select":
		return t.args[0].op == "var" && t.args[0].old && isOldKey(t.args[1])
	case "var":
		return t.old
	case "drop", "take":
		return isOldSeq(t.args[0])
	}
	return false
}

func refDistinct(a, b *Term) bool {
	ia, ib := Rid(a), Rid(b)
	if ia == ib {
		return Distinct(Rpath(a), Rpath(b))
	}
	sa, ka, oka := allocSeq(ia)
	sb, kb, okb := allocSeq(ib)
	if oka && okb {
		return sa != sb || ka.Cmp(kb) != 0
	}
	if oka && isOldRef(b) || okb && isOldRef(a) {
		return true
	}
	if oka && ib.isInt() || okb && ia.isInt() { // literal ids are nil or globals
		return true
	}
	if ia.isInt() && ib.isInt() {
		return ia != ib
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq of sorts %s and %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a == b {
		return True
	}
	if Distinct(a, b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.op == "mk" && b.op == "mk" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == SStr {
		// "" = cat(...) etc.
		if a.op == "cat" && b.op == "str" && b.name == "" {
			a, b = b, a
		}
		if a.op == "str" && a.name == "" && b.op == "cat" {
			var cs []*Term
			for _, x := range b.args {
				cs = append(cs, Eq(x, a))
			}
			return And(cs...)
		}
		// what both begin or end with is left out (not under a quantifier, where it would hide the trigger)
		if (a.op == "cat" || b.op == "cat") && len(a.fv) == 0 && len(b.fv) == 0 {
			if a1, b1, ok := cancelParts(strParts(a), strParts(b)); ok {
				return Eq(Cat(a1...), Cat(b1...))
			}
		}
	}
	if b.op == "ite" && (a.isInt() || a.op == "str") {
		if Distinct(a, b.args[1]) && Distinct(a, b.args[2]) {
			return False
		}
	}
	if a.op == "ite" && (b.isInt() || b.op == "str") {
		return Eq(b, a)
	}
	if a.sort == SInt {
		// normalise linear: a - b = 0
		ba, ka := splitConst(a)
		bb, kb := splitConst(b)
		if ba != nil && ba == bb {
			return Bool(ka.Cmp(kb) == 0)
		}
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

// ---- arithmetic; sums are kept as  base + const where possible
func splitConst(t *Term) (*Term, *big.Int) {
	if t.isInt() {
		return nil, t.n
	}
	if t.op == "+" && t.args[len(t.args)-1].isInt() {
		rest := t.args[:len(t.args)-1]
		k := t.args[len(t.args)-1].n
		if len(rest) == 1 {
			return rest[0], k
		}
		return mk("+", "", SInt, rest...), k
	}
	return t, big.NewInt(0)
}

type lin struct {
	k     *big.Int
	coef  map[*Term]*big.Int
	order []*Term
}

func linOf(t *Term) *lin {
	l := &lin{k: new(big.Int), coef: map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, c *big.Int) {
	switch {
	case t.isInt():
		l.k.Add(l.k, new(big.Int).Mul(t.n, c))
	case t.op == "+":
		for _, a := range t.args {
			l.add(a, c)
		}
	case t.op == "*" && t.args[0].isInt():
		l.add(t.args[1], new(big.Int).Mul(c, t.args[0].n))
	default:
		if _, ok := l.coef[t]; !ok {
			l.coef[t] = new(big.Int)
			l.order = append(l.order, t)
		}
		l.coef[t].Add(l.coef[t], c)
	}
}
func (l *lin) term() *Term {
	var ts []*Term
	for _, t := range l.order {
		c := l.coef[t]
		if c.Sign() == 0 {
			continue
		}
		if c.Cmp(big.NewInt(1)) == 0 {
			ts = append(ts, t)
		} else {
			ts = append(ts, mk("*", "", SInt, BigInt(new(big.Int).Set(c)), t))
		}
	}
	sort.Slice(ts, func(i, j int) bool { return termLess(ts[i], ts[j]) })
	if l.k.Sign() != 0 || len(ts) == 0 {
		ts = append(ts, BigInt(new(big.Int).Set(l.k)))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return mk("+", "", SInt, ts...)
}

func Add(as ...*Term) *Term {
	l := &lin{k: new(big.Int), coef: map[*Term]*big.Int{}}
	for _, a := range as {
		if a.sort != SInt {
			panic("Add of " + string(a.sort) + " " + a.String())
		}
		l.add(a, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Int(0), a) }
func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := &lin{k: new(big.Int), coef: map[*Term]*big.Int{}}
		l.add(b, a.n)
		return l.term()
	}
	if termLess(b, a) {
		a, b = b, a
	}
	return mk("*", "", SInt, a, b)
}

// TDiv, TMod: Go's truncated division
func TDiv(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.n.Sign() != 0 {
		return BigInt(new(big.Int).Quo(a.n, b.n))
	}
	if b.isInt() && b.n.Sign() > 0 {
		return Ite(Ge(a, Int(0)), mk("div", "", SInt, a, b), Neg(mk("div", "", SInt, Neg(a), b)))
	}
	return mk("app", "tdiv", SInt, a, b)
}
func TMod(a, b *Term) *Term {
	if b.isInt() && b.n.Sign() > 0 {
		return Sub(a, Mul(b, TDiv(a, b)))
	}
	return mk("app", "tmod", SInt, a, b)
}

func cmpConst(a, b *Term) (int, bool) {
	d := Sub(a, b)
	if d.isInt() {
		return d.n.Sign(), true
	}
	return 0, false
}
func nonNeg(t *Term) bool {
	switch t.op {
	case "int":
		return t.n.Sign() >= 0
	case "len", "slen":
		return true
	case "+":
		for _, a := range t.args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	case "*":
		return nonNeg(t.args[0]) && nonNeg(t.args[1])
	}
	return false
}
func Le(a, b *Term) *Term {
	if s, ok := cmpConst(a, b); ok {
		return Bool(s <= 0)
	}
	if nonNeg(Sub(b, a)) {
		return True
	}
	return mk("<=", "", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if s, ok := cmpConst(a, b); ok {
		return Bool(s < 0)
	}
	if nonNeg(Sub(a, b)) {
		return False
	}
	return Not(Le(b, a))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- arrays
func Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if Distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	if a.op == "ite" {
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	_, v := a.sort.ArrParts()
	return mk("select", "", v, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if a.op != "constarr" && v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	_, vs := a.sort.ArrParts()
	if vs != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.sort, v.sort))
	}
	return mk("store", "", a.sort, a, i, v)
}
func ConstArr(k Sort, v *Term) *Term { return mk("constarr", "", ArrOf(k, v.sort), v) }

// ---- datatypes (structs)
type DField struct {
	Name string
	Sort Sort
}
type Datatype struct {
	Name   Sort
	Fields []DField
}

var datatypes = map[Sort]*Datatype{}

func MkData(s Sort, args ...*Term) *Term {
	d := datatypes[s]
	if len(args) > 0 {
		// eta: mk(sel0 x, sel1 x, ...) = x
		if args[0].op == "sel" && args[0].args[0].sort == s {
			x := args[0].args[0]
			ok := true
			for i, a := range args {
				if a.op != "sel" || a.args[0] != x || a.name != d.Fields[i].Name {
					ok = false
					break
				}
			}
			if ok {
				return x
			}
		}
	}
	return mk("mk", string(s), s, args...)
}
func SelData(x *Term, i int) *Term {
	d := datatypes[x.sort]
	if d == nil {
		panic("not a datatype: " + string(x.sort))
	}
	if x.op == "mk" {
		return x.args[i]
	}
	if x.op == "ite" {
		return Ite(x.args[0], SelData(x.args[1], i), SelData(x.args[2], i))
	}
	return mk("sel", d.Fields[i].Name, d.Fields[i].Sort, x)
}
func SetData(x *Term, i int, v *Term) *Term {
	d := datatypes[x.sort]
	args := make([]*Term, len(d.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = SelData(x, j)
		}
	}
	return MkData(x.sort, args...)
}

// ---- sequences
func SeqEmpty(e Sort) *Term { return mk("empty", "", SeqOf(e)) }
func SeqUnit(x *Term) *Term { return mk("unit", "", SeqOf(x.sort), x) }

func seqParts(t *Term) []*Term {
	if t.op == "app++" {
		return t.args
	}
	if t.op == "empty" {
		return nil
	}
	return []*Term{t}
}
func SeqApp(as ...*Term) *Term {
	var ps []*Term
	for _, a := range as {
		if a.sort != as[0].sort {
			panic(fmt.Sprintf("append sorts %s %s", a.sort, as[0].sort))
		}
		ps = append(ps, seqParts(a)...)
	}
	if len(ps) == 0 {
		return as[0]
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return mk("app++", "", as[0].sort, ps...)
}
func SeqLen(s *Term) *Term {
	switch s.op {
	case "empty":
		return Int(0)
	case "unit":
		return Int(1)
	case "app++":
		var ls []*Term
		for _, p := range s.args {
			ls = append(ls, SeqLen(p))
		}
		return Add(ls...)
	case "ite":
		return Ite(s.args[0], SeqLen(s.args[1]), SeqLen(s.args[2]))
	}
	return mk("len", "", SInt, s)
}
func SeqAt(s, i *Term) *Term {
	if i.isInt() || s.op == "unit" {
		// walk over known-length parts
		ps := seqParts(s)
		k := i
		for idx, p := range ps {
			if k.isInt() && k.n.Sign() == 0 && p.op == "unit" {
				return p.args[0]
			}
			l := SeqLen(p)
			if !l.isInt() || !k.isInt() {
				if idx > 0 && k.isInt() {
					return mk("at", "", s.sort.Elem(), SeqApp(append([]*Term{}, ps[idx:]...)...), k)
				}
				break
			}
			if k.n.Cmp(l.n) < 0 {
				break
			}
			k = Sub(k, l)
		}
	} else if s.op == "app++" {
		// at(a ++ unit(x), len a) = x
		acc := Int(0)
		for _, p := range s.args {
			if p.op == "unit" && Sub(i, acc) == Int(0) {
				return p.args[0]
			}
			acc = Add(acc, SeqLen(p))
		}
	}
	if s.op == "ite" {
		return Ite(s.args[0], SeqAt(s.args[1], i), SeqAt(s.args[2], i))
	}
	return mk("at", "", s.sort.Elem(), s, i)
}

// SeqDrop(s,n), SeqTake(s,n): total, clamped to 0..len
func SeqDrop(s, n *Term) *Term {
	if n.isInt() && n.n.Sign() <= 0 {
		return s
	}
	if n == SeqLen(s) {
		return SeqEmpty(s.sort.Elem())
	}
	if n.isInt() {
		ps := seqParts(s)
		k := n
		for idx, p := range ps {
			l := SeqLen(p)
			if k.n.Sign() == 0 {
				return SeqApp(append([]*Term{SeqEmpty(s.sort.Elem())}, ps[idx:]...)...)
			}
			if !l.isInt() || k.n.Cmp(l.n) < 0 {
				if idx > 0 && l.isInt() == false {
					return mk("drop", "", s.sort, SeqApp(append([]*Term{}, ps[idx:]...)...), k)
				}
				break
			}
			k = Sub(k, l)
			if idx == len(ps)-1 {
				return SeqEmpty(s.sort.Elem())
			}
		}
	}
	if s.op == "empty" {
		return s
	}
	if s.op == "drop" && nonNegIdx(s.args[1]) && nonNegIdx(n) {
		return SeqDrop(s.args[0], Add(s.args[1], n))
	}
	return mk("drop", "", s.sort, s, n)
}

// indices built from widths and lengths are non-negative
func nonNegIdx(t *Term) bool {
	if nonNeg(t) {
		return true
	}
	switch t.op {
	case "+":
		for _, a := range t.args {
			if !nonNegIdx(a) {
				return false
			}
		}
		return true
	case "app":
		return t.name == "drw"
	}
	return false
}
func SeqTake(s, n *Term) *Term {
	if n.isInt() && n.n.Sign() <= 0 {
		return SeqEmpty(s.sort.Elem())
	}
	if n == SeqLen(s) {
		return s
	}
	if s.op == "app++" {
		// take of a prefix of the parts
		acc := Int(0)
		for i, p := range s.args {
			acc = Add(acc, SeqLen(p))
			if acc == n {
				return SeqApp(s.args[:i+1]...)
			}
		}
	}
	if s.op == "empty" {
		return s
	}
	return mk("take", "", s.sort, s, n)
}

// ---- strings
func Str(s string) *Term { return mk("str", s, SStr) }
func strParts(t *Term) []*Term {
	if t.op == "cat" {
		return t.args
	}
	if t.op == "str" && t.name == "" {
		return nil
	}
	return []*Term{t}
}
func Cat(as ...*Term) *Term {
	var ps []*Term
	for _, a := range as {
		if a.sort != SStr {
			panic("cat of " + string(a.sort) + ": " + a.String())
		}
		for _, p := range strParts(a) {
			if n := len(ps); n > 0 && p.op == "str" && ps[n-1].op == "str" {
				ps[n-1] = Str(ps[n-1].name + p.name)
				continue
			}
			ps = append(ps, p)
		}
	}
	switch len(ps) {
	case 0:
		return Str("")
	case 1:
		return ps[0]
	}
	return mk("cat", "", SStr, ps...)
}

// cancelParts drops the common beginning and end of two texts
func cancelParts(a, b []*Term) ([]*Term, []*Term, bool) {
	done := false
	for len(a) > 0 && len(b) > 0 {
		if a[0] == b[0] {
			a, b, done = a[1:], b[1:], true
			continue
		}
		if a[0].op == "str" && b[0].op == "str" {
			x, y := a[0].name, b[0].name
			n := 0
			for n < len(x) && n < len(y) && x[n] == y[n] {
				n++
			}
			if n > 0 && (n == len(x) || n == len(y)) {
				a = append([]*Term{Str(x[n:])}, a[1:]...)
				b = append([]*Term{Str(y[n:])}, b[1:]...)
				if n == len(x) {
					a = a[1:]
				}
				if n == len(y) {
					b = b[1:]
				}
				done = true
				continue
			}
		}
		break
	}
	for len(a) > 0 && len(b) > 0 {
		i, j := len(a)-1, len(b)-1
		if a[i] == b[j] {
			a, b, done = a[:i], b[:j], true
			continue
		}
		if a[i].op == "str" && b[j].op == "str" {
			x, y := a[i].name, b[j].name
			n := 0
			for n < len(x) && n < len(y) && x[len(x)-1-n] == y[len(y)-1-n] {
				n++
			}
			if n > 0 && (n == len(x) || n == len(y)) {
				a, b = append([]*Term(nil), a[:i]...), append([]*Term(nil), b[:j]...)
				if n < len(x) {
					a = append(a, Str(x[:len(x)-n]))
				}
				if n < len(y) {
					b = append(b, Str(y[:len(y)-n]))
				}
				done = true
				continue
			}
		}
		break
	}
	return a, b, done
}

func SLen(s *Term) *Term {
	switch s.op {
	case "str":
		return Int(int64(len(s.name)))
	case "cat":
		var ls []*Term
		for _, p := range s.args {
			ls = append(ls, SLen(p))
		}
		return Add(ls...)
	case "ite":
		return Ite(s.args[0], SLen(s.args[1]), SLen(s.args[2]))
	}
	return mk("slen", "", SInt, s)
}

// SAt is the byte of s at i
func SAt(s, i *Term) *Term {
	if s.op == "str" && i.isInt() && i.n.Sign() >= 0 && i.n.Cmp(big.NewInt(int64(len(s.name)))) < 0 {
		return Int(int64(s.name[i.n.Int64()]))
	}
	return App("sat", SInt, s, i)
}

// ---- uninterpreted functions
type FuncDecl struct {
	Name string
	Args []Sort
	Ret  Sort
}

var funcDecls = map[string]*FuncDecl{}

func App(name string, ret Sort, args ...*Term) *Term {
	d := funcDecls[name]
	if d == nil {
		d = &FuncDecl{Name: name, Ret: ret}
		for _, a := range args {
			d.Args = append(d.Args, a.sort)
		}
		funcDecls[name] = d
	} else {
		if len(d.Args) != len(args) || d.Ret != ret {
			panic(fmt.Sprintf("function %s used with different signatures: %v->%v vs %v", name, d.Args, d.Ret, ret))
		}
		for i, a := range args {
			if a.sort != d.Args[i] {
				panic(fmt.Sprintf("function %s argument %d: %s vs %s", name, i, d.Args[i], a.sort))
			}
		}
	}
	if name == "enc" {
		// enc(dec(s)) = s; enc distributes over ++; literals fold
		a := args[0]
		if a.op == "app" && a.name == "dec" {
			return a.args[0]
		}
		if a.op == "empty" {
			return Str("")
		}
		if a.op == "unit" && a.args[0].isInt() {
			if a.args[0].n.IsInt64() {
				return Str(string(rune(a.args[0].n.Int64())))
			}
		}
		if a.op == "app++" {
			var ps []*Term
			for _, p := range a.args {
				ps = append(ps, App("enc", SStr, p))
			}
			return Cat(ps...)
		}
	}
	if name == "dec" && args[0].op == "str" {
		t := SeqEmpty(SInt)
		for _, r := range args[0].name {
			t = SeqApp(t, SeqUnit(Int(int64(r))))
		}
		return t
	}
	return mk("app", name, ret, args...)
}

func Forall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", bound, body, pats)
}
func Exists(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", bound, body, pats)
}

// splitItePats replaces a pattern over a conditional by one pattern per branch
func splitItePats(pats [][]*Term) [][]*Term {
	findIte := func(t *Term) *Term {
		var rec func(t *Term) *Term
		rec = func(t *Term) *Term {
			if t.op == "ite" {
				return t
			}
			for _, a := range t.args {
				if r := rec(a); r != nil {
					return r
				}
			}
			return nil
		}
		return rec(t)
	}
	var out [][]*Term
	todo := pats
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		var it *Term
		for _, t := range p {
			if it = findIte(t); it != nil {
				break
			}
		}
		if it == nil || len(out)+len(todo) > 16 {
			out = append(out, p)
			continue
		}
		for _, br := range it.args[1:] {
			m := map[*Term]*Term{it: br}
			var q []*Term
			for _, t := range p {
				q = append(q, Subst(t, m))
			}
			todo = append(todo, q)
		}
	}
	return out
}

// covering drops patterns which do not mention every bound variable
func covering(bound []*Term, pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, p := range pats {
		ok := true
		for _, b := range bound {
			in := false
			for _, t := range p {
				in = in || t == b || t.fv[b]
			}
			ok = ok && in
		}
		for _, t := range p {
			ok = ok && !connective(t)
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

// connective: solvers accept no logical connectives within patterns
func connective(t *Term) bool {
	switch t.op {
	case "and", "or", "not", "=>", "=", "<=", "<", "forall", "exists", "ite":
		return true
	}
	for _, a := range t.args {
		if connective(a) {
			return true
		}
	}
	return false
}

func quant(op string, bound []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	pats = covering(bound, splitItePats(pats))
	var key strings.Builder
	fmt.Fprintf(&key, "%s", op)
	for _, b := range bound {
		fmt.Fprintf(&key, " %d", b.id)
	}
	for _, p := range pats {
		key.WriteString(" |")
		for _, t := range p {
			fmt.Fprintf(&key, " %d", t.id)
		}
	}
	t := mk(op, key.String(), SBool, body)
	if t.bound == nil {
		t.bound = bound
		t.pats = pats
		if len(t.fv) > 0 {
			fv := map[*Term]bool{}
			for v := range t.fv {
				fv[v] = true
			}
			for _, b := range bound {
				delete(fv, b)
			}
			t.fv = fv
		}
	}
	return t
}

// Subst replaces variables (or arbitrary subterms) by terms, re-simplifying.
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	return subst(t, m, cache)
}
func subst(t *Term, m map[*Term]*Term, c map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := c[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, c)
		if args[i] != a {
			ch = true
		}
	}
	var r *Term
	if t.bound != nil {
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				y := subst(x, m, c)
				if y != x {
					ch = true
				}
				q = append(q, y)
			}
			pats = append(pats, q)
		}
		if !ch {
			c[t] = t
			return t
		}
		r = quant(t.op, t.bound, args[0], pats)
		c[t] = r
		return r
	}
	if !ch {
		c[t] = t
		return t
	}
	r = rebuild(t, args)
	c[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "div":
		if args[0].isInt() && args[1].isInt() && args[1].n.Sign() > 0 {
			q := new(big.Int)
			r := new(big.Int)
			q.DivMod(args[0].n, args[1].n, r)
			return BigInt(q)
		}
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "mkref":
		return MkRef(args[0], args[1])
	case "rid":
		return Rid(args[0])
	case "rpath":
		return Rpath(args[0])
	case "mk":
		return MkData(t.sort, args...)
	case "sel":
		d := datatypes[args[0].sort]
		for i, f := range d.Fields {
			if f.Name == t.name {
				return SelData(args[0], i)
			}
		}
	case "unit":
		return SeqUnit(args[0])
	case "app++":
		return SeqApp(args...)
	case "len":
		return SeqLen(args[0])
	case "at":
		return SeqAt(args[0], args[1])
	case "drop":
		return SeqDrop(args[0], args[1])
	case "take":
		return SeqTake(args[0], args[1])
	case "cat":
		return Cat(args...)
	case "slen":
		return SLen(args[0])
	case "constarr":
		k, _ := t.sort.ArrParts()
		return ConstArr(k, args[0])
	case "app":
		return App(t.name, t.sort, args...)
	}
	return mk(t.op, t.name, t.sort, args...)
}

func (t *Term) String() string {
	return t.str(0)
}
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case "var", "int", "bool":
		return t.name
	case "str":
		return strconv.Quote(t.name)
	case "empty":
		return "[]"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	if t.op == "app" || t.op == "mk" || t.op == "sel" {
		sb.WriteString(t.name)
	} else if t.bound != nil {
		sb.WriteString(t.op + " (")
		for i, b := range t.bound {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(b.name)
		}
		sb.WriteString(")")
	} else {
		sb.WriteString(t.op)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.str(d + 1))
	}
	sb.WriteByte(')')
	return sb.String()
}
