package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type oblJSON struct {
	Function string `json:"function"`
	Kind     string `json:"kind"`
	Name     string `json:"obligation"`
	Pos      string `json:"position"`
	Status   string `json:"status"`
	Path     string `json:"path,omitempty"`
}

type fnJSON struct {
	Key      string   `json:"function"`
	Obls     int      `json:"obligations"`
	Proved   int      `json:"discharged"`
	Paths    int      `json:"paths"`
	Rounds   int      `json:"rounds"`
	Secs     float64  `json:"wall_s"`
	Inlined  []string `json:"inlined,omitempty"`
	Called   []string `json:"callees_by_contract,omitempty"`
	Kept     int      `json:"loop_invariants"`
	Trusted  bool     `json:"trusted,omitempty"`
	Problems string   `json:"problem,omitempty"`
}

type outJSON struct {
	Property    string         `json:"property"`
	Functions   []fnJSON       `json:"functions"`
	Lemmas      []fnJSON       `json:"lemmas"`
	Failed      []oblJSON      `json:"failed"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	ByKind      map[string]int `json:"by_kind"`
	Backends    map[string]int `json:"backends"`
	SolverCalls int64          `json:"solver_calls"`
	SolverSecs  float64        `json:"solver_s"`
	Wall        float64        `json:"wall_s"`
	Assumptions []string       `json:"assumptions"`
	Axioms      []string       `json:"axioms"`
	Skipped     []string       `json:"skipped"`
	Error       string         `json:"error,omitempty"`
	Samples     []string       `json:"samples"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contracts")
	prop := flag.String("prop", "", "property")
	only := flag.String("fn", "", "only functions whose key contains this")
	out := flag.String("out", "", "write a JSON report")
	verbose := flag.Bool("v", false, "verbose")
	list := flag.Bool("list", false, "list functions of the repository and their contracts")
	dump := flag.String("dump", "", "dump ssa of a function")
	loose := flag.Bool("loose", false, "assume every postcondition of callees, also those of other properties")
	flag.Parse()
	t0 := time.Now()
	res := outJSON{Property: *prop, ByKind: map[string]int{}, Backends: map[string]int{}}
	fail := func(f string, a ...any) {
		res.Error = fmt.Sprintf(f, a...)
		fmt.Fprintln(os.Stderr, "govc:", res.Error)
		writeOut(*out, &res)
		os.Exit(2)
	}
	var err error
	scratchDir, err = os.MkdirTemp("", "govc")
	if err != nil {
		fail("%v", err)
	}
	if os.Getenv("GOVC_KEEP") == "" {
		defer os.RemoveAll(scratchDir)
	}
	p, err := loadProgram(*repo)
	if err != nil {
		os.RemoveAll(scratchDir)
		fail("cannot load %s: %v", *repo, err)
	}
	theProg = p
	computeEmbedded()
	if *dump != "" {
		for k, f := range p.funcs {
			if strings.Contains(k, *dump) {
				fmt.Println(k)
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	db := &SpecDB{Contracts: map[string]*Contract{}, Funcvals: map[string]*Contract{}, Fns: map[string]*SpecFn{}, Lemmas: map[string]*Lemma{}, Ghosts: map[string]*GhostVar{}}
	db.Ghosts["out"] = &GhostVar{Name: "out", Type: "string"}
	db.Ghosts["sortPerm"] = &GhostVar{Name: "sortPerm", Type: "amap[int]int"}
	db.Ghosts["sortInv"] = &GhostVar{Name: "sortInv", Type: "amap[int]int"}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(r)
				}
				os.RemoveAll(scratchDir)
				fail("contracts: %v", r)
			}
		}()
		db.load(*cdir)
		db.prepare()
	}()
	v := newVerifier(p, db)
	if *prop != "" {
		v.props = map[string]bool{}
		for _, q := range strings.Split(*prop, ",") {
			v.props[q] = true
		}
		v.strict = !v.props["C12"] && !v.props["C23"] && !*loose
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(r)
				}
				os.RemoveAll(scratchDir)
				fail("axioms: %v", r)
			}
		}()
		v.registerAxioms()
	}()
	v.baseFresh = map[string]int{}
	for k, n := range freshCount {
		v.baseFresh[k] = n
	}
	if *list {
		var ks []string
		for k := range p.funcs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			m := "-"
			if c := db.Contracts[k]; c != nil {
				m = strings.Join(c.Props, ",")
				if v.stale[k] != "" {
					m = "STALE " + v.stale[k]
				}
			}
			fmt.Println(k, m)
		}
		return
	}
	var keys []string
	var reps []*FnReport
	seen := map[string]bool{}
	sem := make(chan struct{}, 6)
	verify := func(k string) {
		c := db.Contracts[k]
		if c == nil || c.Kind != "func" || seen[k] {
			return
		}
		seen[k] = true
		if c.Trusted {
			res.Functions = append(res.Functions, fnJSON{Key: k, Trusted: true})
			res.Assumptions = append(res.Assumptions, "trusted contract of "+k+" (body not verified)")
			return
		}
		if v.stale[k] != "" && c.Flags["helper"] {
			res.Skipped = append(res.Skipped, k+": "+v.stale[k]+"; its callers are verified against its body")
			return
		}
		keys = append(keys, k)
	}
	for k, c := range db.Contracts {
		if c.Kind == "func" && (*only == "" || strings.Contains(k, *only)) && v.relevant(c) {
			verify(k)
		}
	}
	for done := 0; done < len(keys); {
		batch := keys[done:]
		sort.Strings(batch)
		done = len(keys)
		rs := make([]*FnReport, len(batch))
		var wg sync.WaitGroup
		for i, k := range batch {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				rs[i] = v.verifyFn(k)
				<-sem
				if *verbose {
					fmt.Fprintf(os.Stderr, "%-60s %d/%d  %.1fs rounds %d paths %d\n", k, rs[i].Proved, len(rs[i].Obls), rs[i].Secs, rs[i].Rounds, rs[i].Paths)
				}
			}()
		}
		wg.Wait()
		reps = append(reps, rs...)
		// the functions called by contract: their frame is relied upon
		if v.strict && *only == "" {
			for _, r := range rs {
				for _, k := range r.Called {
					if c := db.Contracts[k]; c != nil && !v.wants(c.Lend) {
						verify(k)
					}
				}
			}
		}
	}
	// lemmas used, transitively
	doneL := map[string]bool{}
	var lreps []*FnReport
	for ch := true; ch; {
		ch = false
		v.lemMu.Lock()
		usedLemmaMu.Lock()
		var todo []int
		for i, l := range db.LemmaList {
			if (v.lemmaUse[l.Name] || usedLemmas[l.Name] || *only != "" && strings.Contains(l.Name, *only)) && !doneL[l.Name] {
				doneL[l.Name] = true
				ch = true
				if l.Axiom {
					res.Axioms = append(res.Axioms, l.Name)
				} else {
					todo = append(todo, i)
				}
			}
		}
		usedLemmaMu.Unlock()
		v.lemMu.Unlock()
		rs := make([]*FnReport, len(todo))
		parDo(len(todo), func(i int) { rs[i] = v.verifyLemma(db.LemmaList[todo[i]], todo[i]) })
		for _, r := range rs {
			if *verbose {
				fmt.Fprintf(os.Stderr, "%-60s %d/%d  %.1fs\n", r.Key, r.Proved, len(r.Obls), r.Secs)
			}
		}
		lreps = append(lreps, rs...)
	}
	// the machine may have been busy: what failed is tried again, one at a time, when little failed
	all := append(append([]*FnReport{}, reps...), lreps...)
	nf := 0
	for _, r := range all {
		nf += len(r.Failed)
	}
	if nf > 0 && nf <= 2 {
		for _, r := range all {
			var still []*Obl
			for _, o := range r.Failed {
				if o.Goal != nil && o.Goal != False && o.Res.Status == "unknown" {
					o.Res = v.solve(o, 2)
				}
				if o.Res.Status == "unsat" {
					r.Proved++
				} else {
					still = append(still, o)
				}
			}
			r.Failed = still
		}
	}
	as := map[string]bool{}
	for _, r := range append(append([]*FnReport{}, reps...), lreps...) {
		j := fnJSON{Key: r.Key, Obls: len(r.Obls), Proved: r.Proved, Paths: r.Paths, Rounds: r.Rounds, Secs: r.Secs, Inlined: r.Inlined, Called: r.Called, Kept: len(r.Kept), Problems: r.Unsup}
		if r.Lemma {
			res.Lemmas = append(res.Lemmas, j)
		} else {
			res.Functions = append(res.Functions, j)
		}
		res.Obligations += len(r.Obls)
		res.Discharged += r.Proved
		for _, o := range r.Obls {
			res.ByKind[o.Kind]++
			if len(res.Samples) < 8 && o.Kind == "ensures" {
				res.Samples = append(res.Samples, o.Fn+": "+o.Name)
			}
		}
		for _, o := range r.Failed {
			res.Failed = append(res.Failed, oblJSON{o.Fn, o.Kind, o.Name, o.Pos, o.Res.Status, strings.Join(o.Path, "; ")})
			if *verbose {
				fmt.Fprintf(os.Stderr, "FAILED %s [%s] %s at %s (%s %s) %s\n", o.Fn, o.Kind, o.Name, o.Pos, o.Res.Status, strings.Join(o.Path, "; "), o.Res.Query)
			}
		}
		if *verbose && os.Getenv("GOVC_KEPT") != "" {
			for _, k := range r.Kept {
				fmt.Fprintln(os.Stderr, "  kept", k)
			}
		}
		for _, a := range r.Assume {
			as[a] = true
		}
	}
	for a := range as {
		res.Assumptions = append(res.Assumptions, a)
	}
	sort.Strings(res.Assumptions)
	sort.Strings(res.Axioms)
	backendCount.Range(func(k, n any) bool { res.Backends[k.(string)] = int(*n.(*int64)); return true })
	res.SolverCalls = atomic.LoadInt64(&solverCalls)
	res.SolverSecs = float64(atomic.LoadInt64(&solverSecs)) / 1e6
	res.Wall = time.Since(t0).Seconds()
	if len(keys) == 0 {
		res.Failed = append(res.Failed, oblJSON{"", "vacuity", "no function is under contract for this property", "", "unknown", ""})
	}
	writeOut(*out, &res)
	if *verbose {
		fmt.Fprintf(os.Stderr, "%d/%d obligations, %d failed, %.1fs (solver %.1fs, %d calls)\n", res.Discharged, res.Obligations, len(res.Failed), res.Wall, res.SolverSecs, res.SolverCalls)
	}
	if os.Getenv("GOVC_KEEP") == "" {
		os.RemoveAll(scratchDir)
	}
	if len(res.Failed) > 0 {
		os.Exit(1)
	}
}

func writeOut(path string, res *outJSON) {
	if path == "" {
		return
	}
	b, _ := json.MarshalIndent(res, "", " ")
	os.WriteFile(path, b, 0o644)
}
