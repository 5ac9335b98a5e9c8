package main

import (
	"golang.org/x/tools/go/ssa"
)

// Joining paths. Paths that meet again are continued as one: what differs becomes a choice on the
// branch conditions taken since they parted, and what was assumed on one path holds under its conditions.

type arrival struct {
	st   *State
	res  []Val
	from *ssa.BasicBlock
}

type stopPoint struct {
	frame int
	block *ssa.BasicBlock
	base  *State // state at the branch
	got   []arrival
}

// pathLimit: with more paths than this a function is run again with joins
const pathLimit = 150

type tooManyPaths struct{}

// joinPoint finds the first block (in topological order) both sides of the branch at b can reach
func (x *FnRun) joinPoint(fr *Frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	if j, ok := fr.joins[b]; ok {
		return j
	}
	if fr.joins == nil {
		fr.joins = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	reach := func(s *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{s}
		if s.Dominates(b) { // back edge
			return seen
		}
		seen[s] = true
		for len(work) > 0 {
			n := work[len(work)-1]
			work = work[:len(work)-1]
			for _, t := range n.Succs {
				if !seen[t] && !t.Dominates(n) {
					seen[t] = true
					work = append(work, t)
				}
			}
		}
		return seen
	}
	r0, r1 := reach(b.Succs[0]), reach(b.Succs[1])
	var best *ssa.BasicBlock
	for _, c := range fr.fn.Blocks {
		if !r0[c] || !r1[c] {
			continue
		}
		if _, loop := fr.loops[c]; loop {
			continue
		}
		same := true
		for h, body := range fr.loops {
			if body[b] != body[c] || h == c {
				same = false
			}
		}
		if !same {
			continue
		}
		// first: nothing common reaches it
		if best == nil || reach(c)[best] {
			best = c
		}
	}
	fr.joins[b] = best
	return best
}

func (x *FnRun) branchJoin(fr *Frame, b *ssa.BasicBlock, st *State, c *Term) {
	j := x.joinPoint(fr, b)
	if j == nil {
		x.branch(st, c, func(s *State) { x.enter(fr, b, b.Succs[0], s) }, func(s *State) { x.enter(fr, b, b.Succs[1], s) })
		return
	}
	sp := &stopPoint{frame: fr.id, block: j, base: st.clone()}
	x.stops = append(x.stops, sp)
	n := len(x.stops)
	x.branch(st, c, func(s *State) { x.enter(fr, b, b.Succs[0], s) }, func(s *State) { x.enter(fr, b, b.Succs[1], s) })
	if len(x.stops) != n {
		panic("stop points out of order")
	}
	x.stops = x.stops[:n-1]
	for _, a := range x.mergeArrivals(sp.base, sp.got) {
		x.arrive(fr, j, a.st)
	}
}

// arrive continues at block j, whose phis have their values
func (x *FnRun) arrive(fr *Frame, j *ssa.BasicBlock, st *State) {
	for i := len(x.stops) - 1; i >= 0; i-- {
		if sp := x.stops[i]; sp.frame == fr.id && sp.block == j {
			sp.got = append(sp.got, arrival{st: st})
			return
		}
	}
	x.run(fr, j, x.firstNonPhi(j), st)
}

func (x *FnRun) stopsAt(fr *Frame, j *ssa.BasicBlock) bool {
	for _, sp := range x.stops {
		if sp.frame == fr.id && sp.block == j {
			return true
		}
	}
	return false
}

func sameVal(a, b Val) bool {
	if a.T != b.T || a.Own != b.Own && (a.Own == nil || b.Own == nil || *a.Own != *b.Own) || len(a.Tup) != len(b.Tup) || a.Iter != b.Iter && (a.Iter == nil || b.Iter == nil || *a.Iter != *b.Iter) {
		return false
	}
	for i := range a.Tup {
		if !sameVal(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	if a.Addr != b.Addr {
		if a.Addr == nil || b.Addr == nil {
			return false
		}
		p, q := a.Addr, b.Addr
		if p.class != q.class || p.ref != q.ref || p.idx != q.idx || p.arr != q.arr || len(p.path) != len(q.path) || p.bkey != q.bkey && (p.bkey == nil || q.bkey == nil || *p.bkey != *q.bkey) {
			return false
		}
		for i := range p.path {
			if p.path[i] != q.path[i] {
				return false
			}
		}
		if (p.base == nil) != (q.base == nil) || p.base != nil && !sameVal(*p.base, *q.base) {
			return false
		}
	}
	if a.Fn != b.Fn {
		if a.Fn == nil || b.Fn == nil || a.Fn.fn != b.Fn.fn || len(a.Fn.bindings) != len(b.Fn.bindings) {
			return false
		}
		for i := range a.Fn.bindings {
			if !sameVal(a.Fn.bindings[i], b.Fn.bindings[i]) {
				return false
			}
		}
	}
	return true
}

func plain(v Val) bool {
	return v.T != nil && v.Fn == nil && v.Tup == nil && v.Addr == nil && v.Iter == nil
}

func mergeOwn(a, b *Own) *Own {
	if a == b {
		return a
	}
	ka, kb := "", ""
	if a != nil {
		ka = a.kind
	}
	if b != nil {
		kb = b.kind
	}
	switch {
	case ka == "nil":
		return b
	case kb == "nil":
		return a
	case a != nil && b != nil && *a == *b && ka != "fresh":
		return a
	case ka == "fresh" && kb == "fresh":
		return &Own{kind: "fresh"}
	}
	if a == nil && b == nil {
		return nil
	}
	return &Own{kind: "shared"}
}

func mergeVal(g *Term, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if a.Tup != nil && len(a.Tup) == len(b.Tup) {
		r := Val{Tup: make([]Val, len(a.Tup))}
		for i := range a.Tup {
			v, ok := mergeVal(g, a.Tup[i], b.Tup[i])
			if !ok {
				return Val{}, false
			}
			r.Tup[i] = v
		}
		return r, true
	}
	if !plain(a) || !plain(b) || a.T.sort != b.T.sort {
		return Val{}, false
	}
	return Val{T: Ite(g, a.T, b.T), Own: mergeOwn(a.Own, b.Own)}, true
}

// mergeHeap joins two arrays; stores onto a common base stay stores
func mergeHeap(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	if !a.sort.IsArr() {
		return Ite(g, a, b)
	}
	on := map[*Term]bool{}
	for t := a; ; t = t.args[0] {
		on[t] = true
		if t.op != "store" {
			break
		}
	}
	base := b
	for !on[base] {
		if base.op != "store" {
			return Ite(g, a, b)
		}
		base = base.args[0]
	}
	var refs []*Term
	seen := map[*Term]bool{}
	for _, h := range []*Term{a, b} {
		var rs []*Term
		for t := h; t != base; t = t.args[0] {
			rs = append(rs, t.args[1])
		}
		for i := len(rs) - 1; i >= 0; i-- {
			if !seen[rs[i]] {
				seen[rs[i]] = true
				refs = append(refs, rs[i])
			}
		}
	}
	r := base
	for _, ref := range refs {
		r = Store(r, ref, Ite(g, Select(a, ref), Select(b, ref)))
	}
	return r
}

func (x *FnRun) mergeArrivals(base *State, as []arrival) []arrival {
	for len(as) > 1 {
		n := len(as)
		m, ok := x.merge2(base, as[n-2], as[n-1])
		if !ok {
			return as
		}
		as = append(as[:n-2:n-2], m)
	}
	return as
}

// merge2 joins two states that parted after base
func (x *FnRun) merge2(base *State, p, q arrival) (arrival, bool) {
	a, b := p.st, q.st
	nb := len(base.pc)
	if len(a.pc) < nb || len(b.pc) < nb || len(a.loops) != len(b.loops) || len(p.res) != len(q.res) {
		return arrival{}, false
	}
	for i := range a.loops {
		if a.loops[i] != b.loops[i] {
			return arrival{}, false
		}
	}
	for k, d := range a.defers {
		if len(d) != len(b.defers[k]) {
			return arrival{}, false
		}
	}
	for k, d := range b.defers {
		if len(d) != len(a.defers[k]) {
			return arrival{}, false
		}
	}
	cond := func(s *State) *Term { return And(s.guards[len(base.guards):]...) }
	ga, gb := cond(a), cond(b)
	// values
	env := make(map[envKey]Val, len(a.env))
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok {
			continue // not visible after the join
		}
		m, ok := mergeVal(ga, v, w)
		if !ok {
			return arrival{}, false
		}
		env[k] = m
	}
	res := make([]Val, len(p.res))
	for i := range p.res {
		m, ok := mergeVal(ga, p.res[i], q.res[i])
		if !ok {
			return arrival{}, false
		}
		res[i] = m
	}
	iters := map[int]*Term{}
	for k, v := range a.iters {
		if w, ok := b.iters[k]; ok {
			iters[k] = Ite(ga, v, w)
		}
	}
	n := base.clone()
	n.env, n.iters = env, iters
	n.loops = append([]*loopCtx(nil), a.loops...)
	n.defers = map[int][]deferred{}
	for k, d := range a.defers {
		n.defers[k] = append([]deferred(nil), d...)
	}
	n.consumed = map[*Own]bool{}
	for k := range a.consumed {
		n.consumed[k] = true
	}
	for k := range b.consumed {
		n.consumed[k] = true
	}
	for i := 0; i < len(a.path) && i < len(b.path) && a.path[i] == b.path[i]; i++ {
		n.path = append(n.path[:i:i], a.path[i])
	}
	// conditions
	if or := Or(ga, gb); or != True {
		n.assume(or)
		n.guards = append(n.guards, or)
	}
	isGuard := func(s *State) map[*Term]bool {
		m := map[*Term]bool{}
		for _, g := range s.guards[len(base.guards):] {
			if g.op == "and" {
				for _, h := range g.args {
					m[h] = true
				}
			}
			m[g] = true
		}
		return m
	}
	side := func(s *State, g *Term, o *State) {
		skip := isGuard(s)
		for _, f := range s.pc[nb:] {
			if skip[f] {
				continue
			}
			if o.pcset[f] {
				n.assume(f)
			} else {
				n.assume(Imp(g, f))
			}
		}
	}
	side(a, ga, b)
	side(b, gb, a)
	// heap
	for c := range a.heap {
		n.joinHeap(c, ga, a, b)
	}
	for c := range b.heap {
		if _, ok := a.heap[c]; !ok {
			n.joinHeap(c, ga, a, b)
		}
	}
	return arrival{st: n, res: res}, true
}

func (n *State) joinHeap(c string, g *Term, a, b *State) {
	u, v := a.get(c), b.get(c)
	if u == v {
		n.heap[c] = u
		return
	}
	if c == "ghost:alloc" {
		t := Fresh("alloc", SInt)
		n.assume(Eq(t, Ite(g, u, v)))
		n.heap[c] = t
		return
	}
	n.heap[c] = mergeHeap(g, u, v)
}
