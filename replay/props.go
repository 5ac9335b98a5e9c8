package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode"
)

type propFn func(r *rand.Rand, x *X, i int) *Fail

var propFns = map[string]propFn{
	"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08,
	"C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16,
	"C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23,
}

func show(v any) string { return fmt.Sprintf("%+v", v) }

func isoOf(t RTx) string { return t.Date }

// parse runs the reader on files and gives the reference reading as well
func (x *X) parse(files map[string]string, root string) (*Resp, []Tx, *RErr, string) {
	d := x.Put(files)
	rp := x.API(&Req{Op: "parse", Path: filepath.Join(d, root)})
	txs, err := Read(Abs(d, files), filepath.Join(d, root))
	return rp, txs, err, d
}

func fail(msg string, files map[string]string, exp, act any) *Fail {
	return &Fail{Msg: msg, Files: files, Root: "j", Expected: show(exp), Actual: show(act)}
}

// sameCount reports a wrong number of transactions or a wrong refusal; ok if comparable
func sameCount(files map[string]string, rp *Resp, txs []Tx, err *RErr) (*Fail, bool) {
	if rp == nil || err != nil && err.Vague {
		return nil, false
	}
	if rp.Panic != "" {
		return fail("reading ends with a report or an error", files, "no crash", rp.Panic), false
	}
	if err == nil && rp.HasErr {
		return fail("a well-formed journal is refused", files, txs, rp.Err), false
	}
	if err != nil && !rp.HasErr {
		return fail("a journal with a line that must be refused ("+err.Msg+") is accepted", files, err.Msg, rp.Txs), false
	}
	if err == nil && len(rp.Txs) != len(txs) {
		return fail("number of transactions delivered", files, txs, rp.Txs), false
	}
	return nil, err == nil
}

func one(s string) map[string]string { return map[string]string{"j": s} }

// ---------- C01, C02

func unbalance(g *G, s string) string {
	ls := strings.Split(s, "\n")
	var idx []int
	for i, l := range ls {
		if strings.HasPrefix(l, "    ") && regexp.MustCompile(`\d\.\d\d$`).MatchString(l) {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return s
	}
	k := idx[g.r.Intn(len(idx))]
	l := ls[k]
	c := l[len(l)-1]
	n := byte('0' + (int(c-'0')+1+g.r.Intn(9))%10)
	ls[k] = l[:len(l)-1] + string(n)
	return strings.Join(ls, "\n")
}

func c01(r *rand.Rand, x *X, i int) *Fail {
	if chance(r, 3) {
		return txDirect(r, x, false)
	}
	g := &G{r: r, Elide: chance(r, 2), Zero: chance(r, 2), Comms: chance(r, 3), Periodic: chance(r, 2), Tight: chance(r, 2), Big: chance(r, 4), Comments: chance(r, 4)}
	if chance(r, 6) {
		g.Elide = false
	}
	s, _ := g.file()
	if chance(r, 2) {
		s = unbalance(g, s)
	}
	if chance(r, 8) {
		s += fmt.Sprintf("\n\n2020-01-01 Lone\n    A    %s\n", pick(r, "0", "0.00", "1", "-0.01", ""))
	}
	files := one(s)
	rp, txs, err, d := x.parse(files, "j")
	if rp != nil {
		for _, t := range rp.Txs {
			sum := new(big.Int)
			for _, p := range t.Postings {
				if !p.HasAmount {
					return fail("a delivered transaction has a posting without an amount", files, "every posting has an amount", t)
				}
				sum.Add(sum, big.NewInt(p.Quantity))
			}
			if sum.Sign() != 0 {
				return fail("a delivered transaction does not sum to zero", files, "sum 0", t)
			}
		}
		if err != nil && !err.Vague && strings.HasPrefix(err.Msg, "does not balance") {
			if !rp.HasErr {
				return fail("an unbalanced entry is accepted", files, "an error", rp.Txs)
			}
			if len(rp.Txs) > len(txs) {
				return fail("an unbalanced or later entry is delivered", files, txs, rp.Txs)
			}
		}
	}
	if i%4 == 0 && err != nil && strings.HasPrefix(err.Msg, "does not balance") {
		cmd := pick(r, "print", "balance", "accounts", "payees", "statistics")
		o := x.CLI(d, nil, "-f", "j", cmd)
		if strings.Contains(o.Stdout, "Unique payees") || regexp.MustCompile(`(?m)^\d{4}-\d\d-\d\d `).MatchString(o.Stdout) || strings.Contains(o.Stdout, "-----") || o.Stdout+o.Stderr == "" {
			f := fail("a journal with an unbalanced entry yields a report", files, "an error message", o.Stdout)
			f.Args = []string{"-f", "j", cmd}
			return f
		}
	}
	return nil
}

func txDirect(r *rand.Rand, x *X, stated bool) *Fail {
	g := &G{r: r, Big: chance(r, 3), Zero: chance(r, 2), Comms: true}
	n := r.Intn(6)
	var t RTx
	sum := new(big.Int)
	elided := 0
	for k := range n {
		p := RPosting{Account: g.account(), HasAmount: true, Commodity: pick(r, commodities...), Quantity: g.quantity()}
		if k == n-1 && chance(r, 2) && sum.IsInt64() && sum.Int64() != -1<<63 {
			p.Quantity = -sum.Int64()
		}
		if chance(r, 5) {
			p = RPosting{Account: g.account()}
			elided++
		}
		sum.Add(sum, big.NewInt(p.Quantity))
		t.Postings = append(t.Postings, p)
	}
	rp := x.API(&Req{Op: "tx", Tx: &t})
	if rp == nil {
		return nil
	}
	bad := func(m string, e any) *Fail {
		f := &Fail{Msg: m, Request: t.Postings, Expected: show(e), Actual: show(*rp)}
		return f
	}
	if rp.Panic != "" {
		return bad("adding postings and closing crashed", "no crash")
	}
	neg := new(big.Int).Neg(sum)
	refuse := elided > 1 || elided == 0 && sum.Sign() != 0 || elided == 1 && (!neg.IsInt64() || neg.Int64() == -1<<63)
	if refuse != rp.HasErr {
		return bad("refused exactly when it cannot be balanced", map[bool]string{true: "an error", false: "no error"}[refuse])
	}
	if refuse {
		return nil
	}
	got := rp.Txs[0].Postings
	if len(got) != len(t.Postings) {
		return bad("number of postings", len(t.Postings))
	}
	for k, p := range t.Postings {
		want := p.Quantity
		if !p.HasAmount {
			want = neg.Int64()
		}
		if !got[k].HasAmount || got[k].Quantity != want || p.HasAmount && got[k].Commodity != p.Commodity {
			return bad(fmt.Sprintf("amount of posting %d", k), want)
		}
	}
	return nil
}

func c02(r *rand.Rand, x *X, i int) *Fail {
	if chance(r, 3) {
		return txDirect(r, x, true)
	}
	g := &G{r: r, Elide: true, Zero: chance(r, 2), Comms: chance(r, 2), Tight: true, Periodic: chance(r, 3), Amounts: chance(r, 2), Big: chance(r, 4), Comments: chance(r, 3), Accounts: chance(r, 3)}
	s, _ := g.file()
	if chance(r, 4) { // a second omitted amount
		ls := strings.Split(s, "\n")
		k := r.Intn(len(ls))
		for range ls {
			if regexp.MustCompile(`^    \pL.*    \S*\d\.\d\d$`).MatchString(ls[k]) {
				ls[k] = ls[k][:strings.LastIndex(ls[k], "    ")]
				break
			}
			k = (k + 1) % len(ls)
		}
		s = strings.Join(ls, "\n")
	}
	files := one(s)
	rp, txs, err, _ := x.parse(files, "j")
	f, ok := sameCount(files, rp, txs, err)
	if f != nil || !ok {
		return f
	}
	for k, t := range txs {
		a := rp.Txs[k]
		if len(a.Postings) != len(t.Ps) {
			return fail("number of postings", files, t, a)
		}
		for m, p := range t.Ps {
			q := a.Postings[m]
			if !q.HasAmount || q.Quantity != p.Q || strings.TrimSpace(q.Commodity) != strings.TrimSpace(p.Commodity) {
				return fail(fmt.Sprintf("amount of posting %d of transaction %d", m+1, k+1), files, t, a)
			}
		}
	}
	return nil
}

// ---------- C03

func c03(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Amounts: true, Big: true}
	var s string
	switch r.Intn(5) {
	case 0, 1:
		s = g.amountText(g.quantity())
	case 2: // around the limits
		s = pick(r, "92233720368547758.07", "92233720368547758.08", "-92233720368547758.07", "-92233720368547758.08", "92233720368547758.1", "92233720368547758", "92233720368547759", "92233720368547758.0", "92233720368547757.99", "-92233720368547758.09", "9223372036854775807", "9223372036854775808", "18446744073709551616", "184467440737095516.16", "184467440737095516.15", "184467440737095517", "99999999999999999999999", "92233720368547758.7", "18446744073709551615.00", "-9223372036854775808")
	case 3: // mutations
		b := []rune(g.amountText(g.quantity()))
		for range 1 + r.Intn(2) {
			c := pick(r, '.', '-', '+', '0', '5', '9', ',', '_', 'e', 'x', '٣', ' ', '²', '½')
			k := r.Intn(len(b) + 1)
			if chance(r, 3) && k < len(b) {
				b[k] = c
			} else if chance(r, 4) && k < len(b) {
				b = append(b[:k], b[k+1:]...)
			} else {
				b = append(b[:k], append([]rune{c}, b[k:]...)...)
			}
		}
		s = string(b)
	default:
		s = fmt.Sprintf("%s%d%s", pick(r, "", "-", "+", "--", "+-", "-+"), r.Intn(2000), pick(r, "", ".", ".0", ".5", ".05", ".50", ".123", ".1234", ".-5", ".+5", "..5", ".5.", ".x", "5_0", ".5_", "e2", ".000", ".990", " 5"))
	}
	if s == "" {
		s = "5"
	}
	first := []rune(s)[0]
	if !unicode.IsNumber(first) && first != '-' && first != '+' {
		s = "1" + s
	}
	comm := pick(r, "", "", "£", "GBP ", "$")
	text := "2020-01-01 P\n    A    " + comm + s + "\n    B\n"
	files := one(text)
	rp, txs, err, d := x.parse(files, "j")
	if rp == nil || rp.Panic != "" {
		if rp != nil {
			return fail("reading an amount crashed", files, "no crash", rp.Panic)
		}
		return nil
	}
	if (err != nil) != rp.HasErr {
		return fail("amount "+show(s)+" accepted or refused wrongly", files, show(err), rp)
	}
	if err == nil && (len(rp.Txs) != 1 || len(rp.Txs[0].Postings) < 1 || rp.Txs[0].Postings[0].Quantity != txs[0].Ps[0].Q) {
		return fail("value of amount "+show(s), files, txs[0].Ps[0].Q, rp.Txs)
	}
	if i%16 == 0 {
		o := x.CLI(d, nil, "-f", "j", "print")
		want := ""
		if err == nil {
			want = "A    " + txs[0].Ps[0].Commodity + money(txs[0].Ps[0].Q)
		}
		if want != "" && !strings.Contains(o.Stdout, want) || want == "" && strings.Contains(o.Stdout, "2020-01-01 ") {
			f := fail("amount "+show(s)+" in print", files, want, o.Stdout)
			f.Args = []string{"-f", "j", "print"}
			return f
		}
	}
	return nil
}

func money(q int64) string {
	b := big.NewInt(q)
	s := ""
	if b.Sign() < 0 {
		s = "-"
		b.Neg(b)
	}
	u, h := new(big.Int).QuoRem(b, big.NewInt(100), new(big.Int))
	return fmt.Sprintf("%s%s.%02d", s, u.String(), h.Int64())
}

// ---------- C04

func c04(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Big: true}
	q := g.quantity()
	switch r.Intn(4) {
	case 0:
		q = pick(r, int64(0), 1, -1, 9, -9, 10, -10, 99, -99, 100, -100, 101, -101, 999, -999, -1<<63, 1<<63-1, -1<<63+1, -1<<63+8, 1000000, 123456789012345678)
	case 1:
		q = int64(r.Uint64())
	case 2:
		q = int64(i%4001 - 2000)
	}
	c := pick(r, "", "£", "GBP ", "%d", "日本 ", "-")
	wc := chance(r, 2)
	rp := x.API(&Req{Op: "display", Q: q, C: c, Flag: wc})
	if rp != nil {
		want := money(q)
		full := want
		if wc {
			full = c + want
		}
		if rp.Panic != "" || rp.S != full || rp.Ss[0] != want || rp.Ss[1] != want || rp.Q != q || rp.C != c {
			return &Fail{Msg: fmt.Sprintf("display of %d hundredths (commodity %q, shown: %v)", q, c, wc), Request: Req{Op: "display", Q: q, C: c, Flag: wc}, Expected: full + " / " + want, Actual: show(*rp)}
		}
	}
	if i%8 == 0 && q != -1<<63 {
		files := one(fmt.Sprintf("2020-01-01 P\n    A    £%s\n    B\n", money(q)))
		d := x.Put(files)
		o := x.CLI(d, nil, "-f", "j", "print")
		if !strings.Contains(o.Stdout, "\n    A    £"+money(q)+"\n") {
			f := fail("amount displayed by print", files, "A    £"+money(q), o.Stdout)
			f.Args = []string{"-f", "j", "print"}
			return f
		}
		o = x.CLI(d, nil, "-f", "j", "balance", "-Z")
		if !strings.Contains(o.Stdout, fmt.Sprintf("%20s  A\n", "£"+money(q))) {
			f := fail("amount displayed by balance", files, "£"+money(q)+"  A", o.Stdout)
			f.Args = []string{"-f", "j", "balance", "-Z"}
			return f
		}
	}
	return nil
}

// ---------- reports

// rollup adds q to account and everything above it; "" is the grand total
func rollup(m map[string]*big.Int, account string, q int64) {
	parts := strings.Split(account, ":")
	for k := range len(parts) + 1 {
		p := strings.Join(parts[:k], ":")
		if k == 0 {
			p = "\x00root"
		}
		if m[p] == nil {
			m[p] = new(big.Int)
		}
		m[p].Add(m[p], big.NewInt(q))
	}
}

func inRange(m map[string]*big.Int) bool {
	for _, v := range m {
		if !v.IsInt64() {
			return false
		}
	}
	return true
}

var lineRe = regexp.MustCompile(`^ *(\D*?)(-?\d+\.\d\d)  ( *)(.*)$`)

type bline struct {
	amount string
	depth  int
	name   string
}

// balanceLines reads the body of a balance report; the grand total is returned apart
func balanceLines(s string) ([]bline, string, bool) {
	body, tail, ok := strings.Cut(s, "--------------------\n")
	if !ok {
		return nil, "", false
	}
	var ls []bline
	for _, l := range strings.Split(body, "\n") {
		if l == "" {
			continue
		}
		m := lineRe.FindStringSubmatch(l)
		if m == nil {
			return nil, "", false
		}
		ls = append(ls, bline{m[2], len(m[3]), m[4]})
	}
	return ls, strings.TrimSpace(tail), true
}

// paths gives each line of a tree layout its full path
func paths(ls []bline) []string {
	var st []string
	var r []string
	for _, l := range ls {
		k := l.depth / 2
		for len(st) > k {
			st = st[:len(st)-1]
		}
		for len(st) < k {
			st = append(st, "?")
		}
		st = append(st, l.name)
		r = append(r, strings.Join(st, ":"))
	}
	return r
}

// balance totals, given the postings selected
func totals(txs []Tx, sel func(t Tx) []Posting) map[string]*big.Int {
	m := map[string]*big.Int{"\x00root": new(big.Int)}
	for _, t := range txs {
		if t.Periodic {
			continue
		}
		for _, p := range sel(t) {
			rollup(m, p.Account, p.Q)
		}
	}
	return m
}

func allOf(t Tx) []Posting { return t.Ps }

func c05(r *rand.Rand, x *X, i int) *Fail {
	if i%2 == 0 { // the account tree directly
		g := &G{r: r, Accounts: true, Zero: true, Big: chance(r, 6)}
		var ops []Op
		m := map[string]*big.Int{"\x00root": new(big.Int)}
		for range 1 + r.Intn(15) {
			a := g.account()
			q := g.quantity()
			rollup(m, a, q)
			if !inRange(m) {
				rollup(m, a, 0)
				break
			}
			ops = append(ops, Op{Kind: "add", S: a, Q: q, C: "£"})
		}
		if !inRange(m) {
			return nil
		}
		ops = append(ops, Op{Kind: "dump"})
		rp := x.API(&Req{Op: "accounts", Ops: ops})
		if rp == nil {
			return nil
		}
		f := &Fail{Msg: "totals of accounts after recording postings", Request: ops, Actual: show(*rp)}
		if rp.Panic != "" || rp.HasErr || len(rp.Trees) != 1 {
			return f
		}
		for _, b := range rp.Bs {
			if !b {
				f.Msg = "a posting is not recorded with its account"
				return f
			}
		}
		got := map[string]int64{}
		flat(rp.Trees[0], "", got)
		for p, v := range m {
			if q, ok := got[p]; !ok || q != v.Int64() {
				f.Expected = fmt.Sprintf("%s: %s hundredths", strings.TrimPrefix(p, "\x00"), v)
				return f
			}
		}
		if len(got) != len(m) {
			f.Expected = show(len(m)) + " accounts"
			return f
		}
		return nil
	}
	g := &G{r: r, Elide: chance(r, 2), Zero: chance(r, 2), Accounts: chance(r, 2), Tight: true, Count: 1 + r.Intn(6)}
	s, _ := g.file()
	files := one(s)
	d := x.Put(files)
	txs, err := Read(Abs(d, files), filepath.Join(d, "j"))
	if err != nil {
		return nil
	}
	args := []string{"-f", "j", "balance"}
	if chance(r, 2) {
		args = append(args, "-Z")
	}
	layout := r.Intn(3)
	switch layout {
	case 1:
		args = append(args, "-F")
	case 2:
		args = append(args, "-C")
	}
	sel := allOf
	if chance(r, 3) {
		fs := filters(r)
		if len(fs) > 0 {
			args = append(append(args, "--"), fs...)
			sel = func(t Tx) []Posting { _, ps := selected(t, fs); return ps }
		}
	}
	m := totals(txs, sel)
	if !inRange(m) {
		return nil
	}
	for p := range m { // paths which read differently in the layout
		if strings.Contains(p, "::") || strings.HasSuffix(p, ":") || strings.Contains(p, "  ") {
			return nil
		}
	}
	o := x.CLI(d, nil, args...)
	f := fail("amounts of the balance report", files, "", o.Stdout+o.Stderr)
	f.Args = args
	ls, total, ok := balanceLines(o.Stdout)
	if !ok {
		if o.Timeout || o.crashed() || len(txs) > 0 {
			return f
		}
		return nil
	}
	if total != money(m["\x00root"].Int64()) {
		f.Msg = "grand total of the balance report"
		f.Expected = money(m["\x00root"].Int64())
		return f
	}
	names := make([]string, len(ls))
	for k, l := range ls {
		names[k] = l.name
	}
	if layout == 0 {
		names = paths(ls)
	}
	if layout == 2 {
		names = paths(ls)
		// collapsed lines take part of the path on one line; indentation counts lines
		return collapsedCheck(f, ls, m)
	}
	for k, n := range names {
		if n == "" && len(ls) == 1 {
			continue // an empty flat layout shows the root
		}
		v, ok := m[n]
		if !ok || money(v.Int64()) != ls[k].amount {
			f.Expected = fmt.Sprintf("%s: %v", n, v)
			if ok {
				f.Expected = n + ": " + money(v.Int64())
			}
			return f
		}
	}
	return nil
}

// collapsedCheck: every line's amount is that of some account whose path ends with the
// line's name
func collapsedCheck(f *Fail, ls []bline, m map[string]*big.Int) *Fail {
	for _, l := range ls {
		ok := false
		for p, v := range m {
			if (p == l.name || strings.HasSuffix(p, ":"+l.name)) && money(v.Int64()) == l.amount {
				ok = true
			}
		}
		if !ok {
			f.Expected = "an account ending in " + l.name + " with that amount"
			return f
		}
	}
	return nil
}

func flat(n *Node, prefix string, m map[string]int64) {
	p := prefix
	if p == "" {
		p = "\x00root"
	}
	m[p] = n.Quantity
	for _, c := range n.Children {
		q := c.Name
		if prefix != "" {
			q = prefix + ":" + c.Name
		}
		if c.Name == "" && prefix == "" {
			q = "\x00empty"
		}
		flat(c, q, m)
	}
}

// ---------- C06

func c06(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Accounts: true, Lead: true}
	var ops []Op
	var want []int
	var paths []string
	var past [][]string
	ids := map[string]int{}
	all := map[string]bool{}
	amounts := map[string]int64{}
	for range 1 + r.Intn(12) {
		p := g.path(1, 5)
		if chance(r, 12) {
			p[r.Intn(len(p))] = ""
		}
		if len(past) > 0 && chance(r, 3) {
			p = append([]string{}, past[r.Intn(len(past))]...)
			if chance(r, 2) {
				g.vary(p)
			} else if chance(r, 2) {
				p = append(p, g.comp())
			} else {
				p = p[:1+r.Intn(len(p))]
			}
		}
		past = append(past, p)
		key := strings.Join(p, ":")
		if chance(r, 3) {
			q := int64(1 + r.Intn(1000))
			ops = append(ops, Op{Kind: "set", Path: p, Q: q})
			amounts[key] = q
		} else {
			ops = append(ops, Op{Kind: "find", Path: p})
			if _, ok := ids[key]; !ok {
				ids[key] = len(ids)
			}
			want = append(want, ids[key])
			paths = append(paths, key)
		}
		for k := range p {
			all[strings.Join(p[:k+1], ":")] = true
		}
	}
	ops = append(ops, Op{Kind: "dump"})
	root := pick(r, "", "", "_budget_root_")
	rp := x.API(&Req{Op: "accounts", S: root, Ops: ops})
	if rp == nil {
		return nil
	}
	f := &Fail{Msg: "accounts found or created", Request: ops, Actual: show(*rp)}
	if rp.Panic != "" || len(rp.Trees) != 1 {
		f.Expected = "no crash"
		return f
	}
	if !reflect.DeepEqual(want, rp.Same) {
		f.Expected = "identities " + show(want)
		return f
	}
	if !reflect.DeepEqual(paths, rp.Ss) {
		f.Expected = "paths " + show(paths)
		return f
	}
	var walk func(n *Node, parts []string) string
	count := 0
	walk = func(n *Node, parts []string) string {
		if len(parts) > 0 {
			count++
			p := strings.Join(parts, ":")
			if !all[p] || n.Name != parts[len(parts)-1] || n.Path != p || !reflect.DeepEqual(n.Components, parts) || !n.ParentOK || !n.KeyOK {
				return p
			}
			if n.Quantity != amounts[p] {
				return p + " amount"
			}
		}
		for _, c := range n.Children {
			if m := walk(c, append(append([]string{}, parts...), c.Name)); m != "" {
				return m
			}
		}
		return ""
	}
	if m := walk(rp.Trees[0], nil); m != "" || count != len(all) {
		f.Expected = fmt.Sprintf("tree with exactly %d accounts, each spelling its path (%s)", len(all), m)
		f.Actual = show(dumpText(rp.Trees[0], 0))
		return f
	}
	return nil
}

func dumpText(n *Node, d int) string {
	s := fmt.Sprintf("%s%q path=%q comps=%q amount=%d parent=%v key=%v\n", strings.Repeat("  ", d), n.Name, n.Path, n.Components, n.Quantity, n.ParentOK, n.KeyOK)
	for _, c := range n.Children {
		s += dumpText(c, d+1)
	}
	return s
}

// ---------- C07

func c07(r *rand.Rand, x *X, i int) *Fail {
	if i%2 == 0 {
		g := &G{r: r, Accounts: true}
		var ops []Op
		set := map[string]int64{}
		exist := map[string]bool{}
		for range 1 + r.Intn(12) {
			p := g.path(1, 4)
			q := pick(r, int64(0), 0, 0, 1, -1, 5)
			ops = append(ops, Op{Kind: "set", Path: p, Q: q})
			set[strings.Join(p, ":")] = q
			for k := range p {
				exist[strings.Join(p[:k+1], ":")] = true
			}
		}
		ops = append(ops, Op{Kind: "rmzero"}, Op{Kind: "dump"})
		rp := x.API(&Req{Op: "accounts", Ops: ops})
		if rp == nil {
			return nil
		}
		f := &Fail{Msg: "accounts left after leaving out empty ones", Request: ops, Actual: show(*rp)}
		if rp.Panic != "" || len(rp.Trees) != 1 {
			return f
		}
		keep := map[string]int64{"\x00root": 0}
		for p := range exist {
			for q, v := range set {
				if v != 0 && (q == p || strings.HasPrefix(q, p+":")) {
					keep[p] = set[p]
				}
			}
		}
		got := map[string]int64{}
		flat(rp.Trees[0], "", got)
		f.Actual = dumpText(rp.Trees[0], 0)
		f.Expected = show(keep)
		if !reflect.DeepEqual(keep, got) {
			return f
		}
		return nil
	}
	g := &G{r: r, Elide: chance(r, 2), Zero: true, Accounts: false, Tight: true, Count: 1 + r.Intn(6)}
	s, es := g.file()
	if chance(r, 2) { // cancel some entries again
		for _, e := range es {
			if chance(r, 2) {
				s += "\n\n"
				for k, l := range e.lines {
					if k > 0 {
						h := strings.LastIndex(l, "    ")
						if h > 3 {
							a := l[h+4:]
							if strings.HasPrefix(a, "-") {
								a = a[1:]
							} else {
								a = "-" + a
							}
							l = l[:h+4] + a
						}
					}
					s += l + "\n"
				}
			}
		}
	}
	files := one(s)
	d := x.Put(files)
	txs, err := Read(Abs(d, files), filepath.Join(d, "j"))
	if err != nil {
		return nil
	}
	m := totals(txs, allOf)
	if !inRange(m) {
		return nil
	}
	z := chance(r, 3)
	args := []string{"-f", "j", pick(r, "balance", "bal", "b")}
	if z {
		args = append(args, pick(r, "-Z", "--show-zero"))
	}
	o := x.CLI(d, nil, args...)
	ls, total, ok := balanceLines(o.Stdout)
	f := fail("accounts shown and left out", files, "", o.Stdout+o.Stderr)
	f.Args = args
	if !ok {
		return f
	}
	want := map[string]string{}
	for p, v := range m {
		if p == "\x00root" {
			continue
		}
		show := z || v.Sign() != 0
		for q, w := range m {
			show = show || w.Sign() != 0 && strings.HasPrefix(q, p+":")
		}
		if show {
			want[p] = money(v.Int64())
		}
	}
	got := map[string]string{}
	for k, p := range paths(ls) {
		got[p] = ls[k].amount
	}
	if !reflect.DeepEqual(want, got) || total != money(m["\x00root"].Int64()) {
		f.Expected = show(want) + " total " + money(m["\x00root"].Int64())
		return f
	}
	return nil
}

// ---------- C08

var zones = []string{"UTC", "America/New_York", "Asia/Tokyo", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Asia/Kolkata", "America/Sao_Paulo", "Africa/Cairo", "Europe/London", "Etc/GMT-14", "Etc/GMT+12"}

func dayShift(d string, n int) string {
	t, _ := time.Parse("2006-01-02", d)
	return t.AddDate(0, 0, n).Format("2006-01-02")
}

func c08(r *rand.Rand, x *X, i int) *Fail {
	tz := pick(r, zones...)
	loc, err := time.LoadLocation(tz)
	if err != nil {
		tz, loc = "UTC", time.UTC
	}
	today := time.Now().In(loc).Format("2006-01-02")
	var begin, end string
	base := pick(r, "2020-02-28", "2019-12-31", "2020-03-29", "2020-10-25", "2018-11-04", "2020-01-01", today)
	n := 4 + r.Intn(4)
	var dates []string
	for range n {
		dates = append(dates, dayShift(base, r.Intn(7)-3))
	}
	if chance(r, 4) {
		dates = append(dates, dayShift(base, 400), dayShift(base, -400), "0001-01-01", "9999-12-31")
	}
	spell := func(d string) (string, string) {
		sep := pick(r, "-", ".", "/")
		t := d[:4] + sep + d[5:7] + sep + d[8:]
		switch r.Intn(8) {
		case 0:
			return d[:4], d[:4] + "-01-01"
		case 1:
			return d[:4] + sep + d[5:7], d[:7] + "-01"
		case 2:
			if d[5:] != "02-29" {
				return d[5:7] + sep + d[8:], today[:4] + d[4:]
			}
		}
		return t, d
	}
	cmd := pick(r, "print", "accounts", "payees", "statistics", "balance", "print", "print")
	args := []string{"-f", "j", cmd}
	cur := chance(r, 3)
	bad := ""
	if chance(r, 2) {
		b, v := spell(dayShift(base, r.Intn(5)-2))
		begin = v
		if chance(r, 10) {
			b = pick(r, "2020-13-01", "2020-02-30", "x", "2020/01-01", "20", "+2020", "2020-1-1", "12/40", "2020-01-01x", "-2020")
			bad = b
		}
		args = append(args, pick(r, "-b", "--begin"), b)
		if strings.HasPrefix(b, "-") {
			args = append(args[:len(args)-2], "--begin="+b)
		}
	}
	if chance(r, 2) {
		e, v := spell(dayShift(base, r.Intn(5)-2))
		end = v
		if chance(r, 10) {
			e = pick(r, "2020-13-01", "2020-02-30", "x", "2020/01-01", "20", "+2020", "2020-1-1", "13/01", "2021-02-29")
			bad = e
		}
		args = append(args, pick(r, "-e", "--end"), e)
	}
	if cur {
		args = append(args, pick(r, "-c", "--current"))
	}
	if cur {
		begin, end = "", dayShift(today, 1)
		if bad != "" {
			return nil // overridden options need not be understood
		}
	}
	var b strings.Builder
	var want []string
	for k, d := range dates {
		fmt.Fprintf(&b, "%s P%02d\n    A%02d    5\n    Z\n\n", d, k, k)
		if (begin == "" || d >= begin) && (end == "" || d < end) {
			want = append(want, fmt.Sprintf("%02d", k))
		}
	}
	files := one(b.String())
	d := x.Put(files)
	o := x.CLI(d, []string{"TZ=" + tz}, args...)
	if time.Now().In(loc).Format("2006-01-02") != today {
		return nil
	}
	f := fail("transactions selected by date", files, show(want), o.Stdout+o.Stderr)
	f.Args, f.Env = args, []string{"TZ=" + tz}
	f.Expected += " (today " + today + ")"
	if bad != "" {
		f.Msg = "a date option which cannot be understood: " + bad
		f.Expected = "an error"
		if o.Stdout+o.Stderr == "" || regexp.MustCompile(`(?m)^(\d{4}-\d\d-\d\d |A\d\d$|P\d\d$|Unique|-----)`).MatchString(o.Stdout) || strings.Contains(o.Stdout, "Unique payees") || strings.Contains(o.Stdout, "-----") {
			return f
		}
		return nil
	}
	var got []string
	switch cmd {
	case "print":
		for _, m := range regexp.MustCompile(`(?m)^\d{4}-\d\d-\d\d . P(\d\d)`).FindAllStringSubmatch(o.Stdout, -1) {
			got = append(got, m[1])
		}
	case "accounts", "balance":
		for _, m := range regexp.MustCompile(`(?m)(?:^|  )A(\d\d)$`).FindAllStringSubmatch(o.Stdout, -1) {
			got = append(got, m[1])
		}
	case "payees":
		for _, m := range regexp.MustCompile(`(?m)^P(\d\d)$`).FindAllStringSubmatch(o.Stdout, -1) {
			got = append(got, m[1])
		}
	case "statistics":
		m := regexp.MustCompile(`Transactions:\s+(\d+) `).FindStringSubmatch(o.Stdout)
		c := "0"
		if m != nil {
			c = m[1]
		}
		if c != fmt.Sprint(len(want)) {
			return f
		}
		return nil
	}
	sort.Strings(got)
	if !reflect.DeepEqual(got, want) {
		return f
	}
	return nil
}

// ---------- C09

type flt struct {
	kind byte
	re   *regexp.Regexp
}

func mkFilter(s string) (flt, error) {
	f := flt{kind: 'a'}
	if strings.HasPrefix(s, "@") || strings.HasPrefix(s, "=") {
		f.kind = s[0]
		s = s[1:]
	}
	up := false
	for _, c := range s {
		up = up || unicode.IsUpper(c)
	}
	if !up {
		s = "(?i)" + s
	}
	re, err := regexp.Compile(s)
	f.re = re
	return f, err
}

// selected: whole transaction?, postings
func selected(t Tx, args []string) (bool, []Posting) {
	if len(args) == 0 {
		return true, t.Ps
	}
	var fs []flt
	for _, a := range args {
		f, err := mkFilter(a)
		if err != nil {
			return false, nil
		}
		fs = append(fs, f)
	}
	for _, f := range fs {
		if f.kind == '@' && f.re.MatchString(t.Payee) {
			return true, t.Ps
		}
		if f.kind == '=' {
			if f.re.MatchString(t.Note) {
				return true, t.Ps
			}
			for _, n := range t.Notes {
				if f.re.MatchString(n) {
					return true, t.Ps
				}
			}
		}
	}
	var ps []Posting
	for _, p := range t.Ps {
		ok := false
		for _, f := range fs {
			if f.kind == 'a' && f.re.MatchString(p.Account) {
				ok = true
			}
			if f.kind == '=' {
				for _, c := range p.Comments {
					ok = ok || f.re.MatchString(c)
				}
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	return false, ps
}

func filterArg(r *rand.Rand) string {
	s := pick(r, "food", "Food", "a", "A", "b", "expenses", "ass", "cash", "^A", "b$", "^a$", "^A:B$", "A:", "x.y", "zz", "équipe", "Équipe", "shop", "Shop", "caf", "acme", "o'brien", "", ".", "p00", "P001", "P00[13]", "two", "more", "[a-c]$", "work|cash", "É", "é", "日", "k", "ſ")
	return pick(r, "", "", "", "@", "=") + s
}

func filters(r *rand.Rand) []string {
	var fs []string
	for range r.Intn(4) {
		fs = append(fs, filterArg(r))
	}
	return fs
}

func c09(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Header: true, Accounts: true, Comments: true, Elide: chance(r, 2), Tight: true, Count: 1 + r.Intn(4)}
	s, _ := g.file()
	files := one(s)
	d := x.Put(files)
	txs, err := Read(Abs(d, files), filepath.Join(d, "j"))
	if err != nil || len(txs) == 0 {
		return nil
	}
	if i%2 == 0 {
		t := txs[0]
		rt := RTx{Payee: t.Payee, Note: t.Note, Notes: t.Notes, Date: t.Date}
		for _, p := range t.Ps {
			rt.Postings = append(rt.Postings, RPosting{Account: p.Account, Comments: p.Comments, HasAmount: true})
		}
		arg := filterArg(r)
		str := pick(r, "Food", "food", "ASSETS", "Équipe", "é", "x-y", "Shop")
		rp := x.API(&Req{Op: "filter", Tx: &rt, Args: []string{arg}, S: str})
		if rp == nil {
			return nil
		}
		f := &Fail{Msg: "filter " + show(arg), Request: rt, Actual: show(*rp)}
		if rp.Panic != "" {
			return f
		}
		ff, err := mkFilter(arg)
		if err != nil || rp.HasErr {
			return nil
		}
		mp := ff.kind == '@' && ff.re.MatchString(t.Payee)
		mn := ff.kind == '=' && (ff.re.MatchString(t.Note))
		for _, n := range t.Notes {
			mn = mn || ff.kind == '=' && ff.re.MatchString(n)
		}
		var idx []int
		for k, p := range t.Ps {
			ok := ff.kind == 'a' && ff.re.MatchString(p.Account)
			for _, c := range p.Comments {
				ok = ok || ff.kind == '=' && ff.re.MatchString(c)
			}
			if ok {
				idx = append(idx, k)
			}
		}
		got := append([]int{}, rp.Ints[1:]...)
		sort.Ints(got)
		if mp != rp.Bs[0] || mn != rp.Bs[1] || rp.Bs[2] != (mp || mn || len(idx) > 0) || fmt.Sprint(got) != fmt.Sprint(append([]int{}, idx...)) || rp.B != ff.re.MatchString(str) {
			f.Expected = fmt.Sprintf("payee %v, note %v, postings %v, string %q %v", mp, mn, idx, str, ff.re.MatchString(str))
			return f
		}
		return nil
	}
	fs := filters(r)
	cmd := pick(r, "print", "balance", "statistics", "print")
	args := append([]string{"-f", "j", cmd, "--"}, fs...)
	if cmd == "balance" {
		args = append([]string{"-f", "j", "balance", "-Z", "--"}, fs...)
	}
	o := x.CLI(d, nil, args...)
	f := fail("postings selected by filters", files, "", o.Stdout+o.Stderr)
	f.Args = args
	switch cmd {
	case "print":
		want := 0
		for _, t := range txs {
			w, ps := selected(t, fs)
			if w || len(ps) > 0 {
				want++
			}
		}
		n := len(regexp.MustCompile(`(?m)^\d{4}-\d\d-\d\d [ !*]`).FindAllString(o.Stdout, -1))
		if n != want {
			f.Expected = show(want) + " transactions"
			return f
		}
	case "statistics":
		want, accts := 0, map[string]bool{}
		for _, t := range txs {
			w, ps := selected(t, fs)
			if w || len(ps) > 0 {
				want++
			}
			for _, p := range ps {
				accts[p.Account] = true
			}
		}
		m := regexp.MustCompile(`Transactions:\s+(\d+) `).FindStringSubmatch(o.Stdout)
		u := regexp.MustCompile(`Unique accounts:\s+(\d+)`).FindStringSubmatch(o.Stdout)
		a, b := "0", "0"
		if m != nil && u != nil {
			a, b = m[1], u[1]
		}
		if a != fmt.Sprint(want) || b != fmt.Sprint(len(accts)) {
			f.Expected = fmt.Sprint(want, " transactions ", len(accts), " accounts")
			return f
		}
	case "balance":
		m := totals(txs, func(t Tx) []Posting { _, ps := selected(t, fs); return ps })
		for p := range m {
			if strings.Contains(p, "::") || strings.HasSuffix(p, ":") || strings.Contains(p, "  ") || !inRange(m) {
				return nil
			}
		}
		ls, _, ok := balanceLines(o.Stdout)
		if !ok {
			if len(m) > 1 {
				f.Expected = show(m)
				return f
			}
			return nil
		}
		got := map[string]string{}
		for k, p := range paths(ls) {
			got[p] = ls[k].amount
		}
		want := map[string]string{}
		for p, v := range m {
			if p != "\x00root" {
				want[p] = money(v.Int64())
			}
		}
		if !reflect.DeepEqual(got, want) {
			f.Expected = show(want)
			return f
		}
	}
	return nil
}

// ---------- C10, C11

func c10(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Header: true, Tight: true, Elide: true, Junk: chance(r, 4)}
	s, _ := g.file()
	if chance(r, 4) { // a malformed date
		ls := strings.Split(s, "\n")
		k := r.Intn(len(ls))
		for range ls {
			if regexp.MustCompile(`^\d{4}[-./]`).MatchString(ls[k]) {
				b := []byte(ls[k])
				switch r.Intn(5) {
				case 0:
					b[r.Intn(10)] = pick(r, byte('x'), '-', '/', '.', '0', '9', '3', ' ', '+')
				case 1:
					b = append(b[:r.Intn(10)], b[1+r.Intn(9):]...)
				case 2:
					b = append([]byte(pick(r, "2020-02-30", "2019-02-29", "2020-00-10", "2020-13-01", "2020-04-31", "2020-1-01", "2020-01-1", "20200-01-01", "2020-01/01", "2020.01-01", "2020-01-00", "1900-02-29", "2020-01-01T", "2020", "20-01-01", "2020-01")), b[10:]...)
				case 3:
					k2 := r.Intn(10)
					b[k2] = byte('0' + r.Intn(10))
				default:
					b = append(b[:10], append([]byte(pick(r, "x", "-", "0", "\t")), b[10:]...)...)
				}
				ls[k] = string(b)
				break
			}
			k = (k + 1) % len(ls)
		}
		s = strings.Join(ls, "\n")
	}
	files := one(s)
	rp, txs, err, _ := x.parse(files, "j")
	if err != nil && err.Msg != "malformed date" {
		return nil
	}
	f, ok := sameCount(files, rp, txs, err)
	if f != nil || !ok {
		return f
	}
	for k, t := range txs {
		a := rp.Txs[k]
		if a.Date != t.Date || !strings.HasPrefix(a.Clock, "00:00:00 ") || a.State != t.State || a.Payee != t.Payee || a.Note != t.Note {
			return fail(fmt.Sprintf("header of transaction %d", k+1), files, t, a)
		}
	}
	return nil
}

func normNotes(ss []string) string { return fmt.Sprintf("%q", ss) }

func c11(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Accounts: true, Comments: true, Comms: true, Elide: chance(r, 2), Tight: true, Junk: chance(r, 2), Amounts: chance(r, 2), Periodic: chance(r, 4)}
	s, _ := g.file()
	if chance(r, 4) {
		ls := strings.Split(s, "\n")
		k := r.Intn(len(ls) + 1)
		l := pick(r, "  1 apple", "  (A:B)    5", "    [x]", "  -5", "  £5", "    A    5", "  A", "x", "account A", " A    5", "\tA    5", "  A x 5", "  5", "  \"A\"  5", "  A\t", "    ", "\t; c", "alias", "  .", "  A    x5", "  A    5 GBP", "P 2020", "  _A  5")
		ls = append(ls[:k], append([]string{l}, ls[k:]...)...)
		s = strings.Join(ls, "\n")
	}
	files := one(s)
	rp, txs, err, _ := x.parse(files, "j")
	if err != nil {
		switch err.Msg {
		case "not a posting", "posting outside an entry", "unexpected line", "not enough spaces", "unexpected directive":
		default:
			return nil
		}
	}
	f, ok := sameCount(files, rp, txs, err)
	if f != nil || !ok {
		return f
	}
	for k, t := range txs {
		a := rp.Txs[k]
		bad := len(a.Postings) != len(t.Ps) || normNotes(a.Notes) != normNotes(t.Notes)
		for m := 0; !bad && m < len(t.Ps); m++ {
			p, q := t.Ps[m], a.Postings[m]
			bad = p.Account != q.Account || !q.HasAmount || p.Q != q.Quantity || p.Commodity != q.Commodity || normNotes(p.Comments) != normNotes(q.Comments) || !q.Own && !a.Periodic
		}
		if bad {
			return fail(fmt.Sprintf("postings and comments of transaction %d", k+1), files, t, a)
		}
	}
	return nil
}

// ---------- C12, C23

var commandNames = []string{"print", "balance", "accounts", "payees", "statistics", "budget"}

func junk(r *rand.Rand, s string) string {
	b := []byte(s)
	for range 1 + r.Intn(6) {
		k := r.Intn(len(b) + 1)
		switch r.Intn(5) {
		case 0:
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		case 1:
			ins := pick(r, "\n", "\r\n", " ", "\t", "  ", "-", "+", ".", ";", "#", "~", "~ ", "i", "include x", "\xff", "\x00", "é", "!", "*", ":", "A", "2", "~ 2020-01\n", "\n\n", "  A\n", "  :\n", "  A:\n", "0", "  ; c\n", "２", "½", "2020-01-01", "Expenses", "Income", "_root_", "_budget_root_")
			b = append(b[:k], append([]byte(ins), b[k:]...)...)
		case 2:
			if k < len(b) {
				b = append(b[:k], b[k+1+r.Intn(len(b)-k):]...)
			}
		case 3:
			if k < len(b) {
				e := min(len(b), k+r.Intn(8))
				b = append(b[:k], b[e:]...)
			}
		case 4:
			ls := strings.Split(string(b), "\n")
			i, j := r.Intn(len(ls)), r.Intn(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
			b = []byte(strings.Join(ls, "\n"))
		}
	}
	ls := strings.Split(string(b), "\n")
	for i, l := range ls {
		if len(l) > 3000 {
			ls[i] = l[:3000]
		}
	}
	return strings.Join(ls, "\n")
}

func c12(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Header: chance(r, 2), Accounts: chance(r, 2), Comments: chance(r, 2), Amounts: chance(r, 2), Elide: chance(r, 2), Comms: chance(r, 2), Periodic: chance(r, 2), Tight: true, Junk: true, Big: chance(r, 2), Zero: chance(r, 2), Budget: chance(r, 2)}
	if chance(r, 5) {
		// longer plain journals of income and spending
		g = &G{r: r, Budget: true, Elide: true, Count: 1 + r.Intn(40), Zero: chance(r, 2), Periodic: chance(r, 3)}
	}
	s, _ := g.file()
	if g.Count == 0 && !chance(r, 4) {
		s = junk(r, s)
	}
	switch r.Intn(20) {
	case 0:
		s = pick(r, "", "\n", "~ 2020-01\n", "~\n", "~ \n", "2020-01-01\n", "2020-01-01", "2\n", "20\n", "2020\n", "2020-\n", "12345 a\n", "  A  -\n", "2020-01-01 p\n  A  +\n", "2020-01-01 p\n  A  -\n  B\n", "2020-01-01 p\n  Expenses  1\n  B\n", "2020-01-01 p\n  Income  1\n  B\n", "2020-01-01 p\n  A::b  1\n  :\n", "include j\n", "include\n", "i\n", "include \n", "include  ;\n", "~ 2020-01\n  A  1\n~ 2020-01\n  A:B  2\n", "2020-01-01 p  ;\n", "2020-01-01 p ;    \n  A  1\n  B\n", "2020-01-01 ! \n", "2020-01-01 *", "~ 2020-01\n  A\n", "~ 2020-01\n", "\t", "  ", "2020-01-01 p\n    A    \n", "2020-01-01 p\n  ; x\n  A  1\n  ; y\n  B", "~ 2020-01\n  ; note\n  A  1\n", "2020-01-01 p\n  A  -.\n", "2020-01-01 p\n  A  .5\n", "2020-01-01 p\n  A  5.\n")
	}
	files := one(s)
	d := x.Put(files)
	var args []string
	args = append(args, "-f", "j", pick(r, commandNames...))
	if chance(r, 3) {
		args = append(args, "--begin="+pick(r, "", "2020", "x", "-", "/", "1/2/3/4", "2020-01", "\xff", ".", "..", "01/01", "0000", "99999", "//"))
	}
	if chance(r, 3) {
		args = append(args, "--end="+pick(r, "", "2020", "x", "-", "/", "2020-01-01", "\xff", "12.31", "--", "2020/"))
	}
	if chance(r, 4) {
		args = append(args, "-c")
	}
	if args[2] == "balance" || args[2] == "budget" {
		for _, o := range []string{"-Z", "-F", "-C"} {
			if chance(r, 3) {
				args = append(args, o)
			}
		}
	}
	if chance(r, 3) {
		args = append(args, "--")
		for range 1 + r.Intn(3) {
			args = append(args, pick(r, "", "@", "=", "a", "@a", "=a", "(", "[", "*", "@(", "\\", "(?i)", "\xff", "A{1001}", "é", "@@", "==", "^$"))
		}
	}
	var env []string
	if chance(r, 20) {
		args = args[2:]
		if chance(r, 2) {
			env = append(env, "LEDGER_FILE=j")
		}
	}
	o := x.CLI(d, env, args...)
	f := fail("a command ended in a crash", files, "a report or an error message", o.Stdout+o.Stderr)
	f.Args, f.Env = args, env
	if o.Timeout {
		f.Msg = "a command did not end"
		return f
	}
	if o.crashed() {
		return f
	}
	if rp := x.API(&Req{Op: "parse", Path: filepath.Join(d, "j")}); rp != nil && rp.Panic != "" && rp.Panic != "the process died" {
		f.Msg = "reading crashed"
		f.Actual = rp.Panic
		f.Args = nil
		return f
	}
	return nil
}

func c23(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Header: chance(r, 2), Accounts: chance(r, 2), Comments: chance(r, 2), Amounts: true, Elide: true, Comms: true, Periodic: true, Tight: true, Junk: true, Budget: chance(r, 2)}
	s, _ := g.file()
	if chance(r, 2) {
		s = junk(r, s)
	}
	files := map[string]string{"j": s}
	if chance(r, 3) {
		files["a"] = pick(r, "include j\n", "include b\n", "include ./a\n", s)
		files["b"] = pick(r, "include a\n", "include ./j\n", "", "include b\n", s)
		files["j"] = s + "\n\n" + pick(r, "include a\n", "include j\n", "include ./j\n", "include a\ninclude b\n")
	}
	if i%50 == 7 {
		files["j"] = "2020-01-01 P\n    " + strings.Repeat("A:", 500) + "A    5\n    B\n"
	}
	if i%50 == 9 {
		var b strings.Builder
		for k := range 800 {
			fmt.Fprintf(&b, "2020-01-01 P%d\n    A:%d:%d    5\n    B\n", k, k%40, k)
		}
		files["j"] = b.String()
	}
	d := x.Put(files)
	args := []string{"-f", "j", pick(r, commandNames...)}
	o := x.CLI(d, nil, args...)
	if o.Timeout {
		f := fail("a command did not end within 10 s", files, "it ends", "still running")
		f.Args = args
		return f
	}
	if rp := x.API(&Req{Op: "parse", Path: filepath.Join(d, "j")}); rp != nil && (rp.Panic == errTimeout.Error() || rp.Panic == "the process died" && strings.Contains(s, "include")) {
		return fail("reading did not end", files, "it ends", rp.Panic)
	}
	return nil
}

// ---------- C13, C19

// spread puts the entries of a journal into included files
func spread(g *G, depth int, files map[string]string, name string) {
	r := g.r
	var b strings.Builder
	n := 1 + r.Intn(4)
	for k := range n {
		if depth > 0 && chance(r, 2) {
			dir := pick(r, "", "", "sub/", "deep/er/")
			child := fmt.Sprintf("%sf%d.j", dir, len(files))
			cn := filepath.Join(filepath.Dir(name), child)
			if _, ok := files[cn]; !ok {
				files[cn] = ""
				spread(g, depth-1, files, cn)
				inc := child
				if chance(r, 4) {
					inc = "./" + child
				}
				line := "include " + inc + pick(r, "", "", "  ; c", "\t", " ; x")
				b.WriteString(line + "\n")
				if chance(r, 6) {
					b.WriteString(line + "\n")
				}
				if chance(r, 2) {
					b.WriteString("\n")
				}
				continue
			}
		}
		e := g.entry()
		b.WriteString(strings.Join(e.lines, "\n"))
		if k < n-1 || chance(r, 2) {
			b.WriteString("\n")
		}
		if k < n-1 && chance(r, 2) {
			b.WriteString("\n")
		}
	}
	files[name] = b.String()
}

func c13(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Elide: true, Periodic: chance(r, 4), Comments: chance(r, 4), Junk: chance(r, 4)}
	files := map[string]string{}
	spread(g, 3, files, "j")
	wantErr := false
	if chance(r, 5) {
		var ns []string
		for n := range files {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		n := pick(r, ns...)
		up := strings.Repeat("../", strings.Count(n, "/"))
		files[n] += "\n" + pick(r, "include nowhere.j", "include "+filepath.Base(n), "include ./"+filepath.Base(n), "include "+up+"j", "include x/../"+filepath.Base(n)) + "\n"
		wantErr = true
	}
	_ = wantErr
	rp, txs, err, d := x.parse(files, "j")
	if rp == nil || err != nil && err.Vague {
		return nil
	}
	if strings.Contains(rp.Panic, "too many open") {
		return nil
	}
	f, ok := sameCount(files, rp, txs, err)
	if f != nil {
		return f
	}
	if err != nil && len(rp.Txs) > len(txs) {
		return fail("transactions delivered after a refused include", files, txs, rp.Txs)
	}
	if !ok && err == nil {
		return nil
	}
	for k, a := range rp.Txs {
		if k >= len(txs) {
			break
		}
		t := txs[k]
		if a.Payee != t.Payee || a.Date != t.Date || len(a.Postings) != len(t.Ps) {
			return fail(fmt.Sprintf("order of transactions: number %d", k+1), files, t, a)
		}
		if filepath.Clean(a.Path) != filepath.Clean(t.File) {
			return fail(fmt.Sprintf("file transaction %d (%s) is attributed to", k+1, a.Payee), files, t.File, a.Path)
		}
	}
	if err == nil && i%5 == 0 {
		want := map[string]bool{}
		n := 0
		for _, t := range txs {
			if !t.Periodic {
				want[filepath.Clean(t.File)] = true
				n++
			}
		}
		args := []string{"-f", filepath.Join(d, "j"), "statistics"}
		o := x.CLI("/", nil, args...)
		ff := fail("files and transactions counted with includes", files, fmt.Sprint(len(want), " files ", n, " transactions"), o.Stdout+o.Stderr)
		ff.Args = args
		m := regexp.MustCompile(`found in (\d+) files`).FindStringSubmatch(o.Stdout)
		c := regexp.MustCompile(`Transactions:\s+(\d+) `).FindStringSubmatch(o.Stdout)
		if n == 0 {
			return nil
		}
		paths := map[string]bool{}
		for _, l := range regexp.MustCompile(`(?m)^  (/.*)$`).FindAllStringSubmatch(o.Stdout, -1) {
			paths[filepath.Clean(l[1])] = true
		}
		if m == nil || c == nil || c[1] != fmt.Sprint(n) || !reflect.DeepEqual(paths, want) {
			return ff
		}
	}
	return nil
}

func c19(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Elide: true, Comments: chance(r, 3), Junk: true, Tight: chance(r, 2)}
	files := map[string]string{}
	spread(g, pick(r, 0, 0, 1, 2, 3), files, "j")
	var ns []string
	for n := range files {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	n := pick(r, ns...)
	ls := strings.Split(files[n], "\n")
	k := r.Intn(len(ls) + 1)
	bad := pick(r, "x", "2020-13-01 P", "20201", "  1 apple", "    A    5x", "    A    5.123", "include nowhere", "indeed", "include", "~2020-01", "~", " x", "2020-01-01 P\n    A    1\n    B    1\n", "2020-01-01 P\n    A\n    B\n    C\n", "\n  A  5", "!", "    A    99999999999999999999", "2020-02-30 * x  ; c", "~x")
	ls = append(ls[:k], append([]string{bad}, ls[k:]...)...)
	files[n] = strings.Join(ls, "\n")
	if chance(r, 8) {
		files[n] = strings.ReplaceAll(files[n], "\n", "\r\n")
	}
	rp, txs, err, d := x.parse(files, "j")
	if rp == nil || err == nil || err.Vague || len(err.Chain) == 0 {
		return nil
	}
	f := fail("file and line of a refused line", files, err.Chain, rp.Err)
	if rp.Panic != "" {
		f.Actual = rp.Panic
		return f
	}
	if !rp.HasErr {
		f.Actual = show(rp.Txs)
		return f
	}
	if len(rp.Txs) > len(txs) {
		f.Msg = "a transaction after a refused line is delivered"
		f.Expected = show(len(txs)) + " transactions"
		f.Actual = show(rp.Txs)
		return f
	}
	check := func(text string) bool {
		for _, l := range err.Chain {
			if !regexp.MustCompile(regexp.QuoteMeta(fmt.Sprintf("%s:%d", l.File, l.Line)) + `(\D|$)`).MatchString(text) {
				return false
			}
		}
		return true
	}
	if !check(rp.Err) {
		return f
	}
	// no other line is named
	for _, m := range regexp.MustCompile(regexp.QuoteMeta(d)+`[^\s:]*:\d+`).FindAllString(rp.Err, -1) {
		ok := false
		for _, l := range err.Chain {
			ok = ok || m == fmt.Sprintf("%s:%d", l.File, l.Line)
		}
		if !ok {
			return f
		}
	}
	if i%5 == 0 {
		args := []string{"-f", filepath.Join(d, "j"), pick(r, commandNames...)}
		o := x.CLI(d, nil, args...)
		if !check(o.Stdout + o.Stderr) {
			f.Args = args
			f.Actual = o.Stdout + o.Stderr
			return f
		}
	}
	return nil
}

// ---------- C14, C15

func monthOf(d string) string { return d[:7] + "-01" }

func c14(r *rand.Rand, x *X, i int) *Fail {
	if i%2 == 1 {
		return budgetCLI(r, x, false)
	}
	g := &G{r: r, Budget: true}
	type mm struct {
		env, exp map[string]*big.Int
		income   *big.Int
	}
	ms := map[string]*mm{}
	var ops []Op
	for range 1 + r.Intn(14) {
		d := g.date()
		if chance(r, 2) {
			d = fmt.Sprintf("2020-%02d-%02d", 1+r.Intn(2), 1+r.Intn(29))
		}
		m := ms[monthOf(d)]
		if m == nil {
			m = &mm{map[string]*big.Int{"\x00root": new(big.Int)}, map[string]*big.Int{"\x00root": new(big.Int)}, new(big.Int)}
			ms[monthOf(d)] = m
		}
		q := g.quantity()
		p := strings.Join(g.path(1, 3), ":")
		switch r.Intn(6) {
		case 0, 1, 2:
			ops = append(ops, Op{Kind: "envelope", S: p, Q: q, C: "£", Date: d})
			rollup(m.env, p, q)
			rollup(m.exp, p, 0)
		case 3, 4:
			ops = append(ops, Op{Kind: "expense", S: "Expenses:" + p, Q: q, C: "£", Date: d})
			rollup(m.exp, p, -q)
			rollup(m.env, p, 0)
		case 5:
			ops = append(ops, Op{Kind: "income", S: "Income:" + p, Q: q, C: "£", Date: d})
			m.income.Sub(m.income, big.NewInt(q))
		}
	}
	rp := x.API(&Req{Op: "budget", Ops: ops})
	if rp == nil {
		return nil
	}
	f := &Fail{Msg: "months of the budget", Request: ops, Actual: show(*rp)}
	if rp.Panic != "" || rp.HasErr || len(rp.Months) != len(ms) {
		f.Expected = show(len(ms)) + " months"
		return f
	}
	for _, a := range rp.Months {
		m := ms[a.Date]
		if m == nil {
			f.Expected = "no month " + a.Date
			return f
		}
		if a.Income != m.income.Int64() {
			f.Expected = a.Date + " income " + m.income.String()
			return f
		}
		for side, n := range map[string]*Node{"allocation": a.Env, "activity": a.Exp} {
			want := m.env
			if side == "activity" {
				want = m.exp
			}
			got := map[string]int64{}
			flat(n, "", got)
			for p, v := range want {
				if p != "\x00root" && got[p] != v.Int64() {
					f.Expected = fmt.Sprintf("%s %s of %s: %s", a.Date, side, p, v)
					f.Actual = dumpText(a.Env, 0) + dumpText(a.Exp, 0)
					return f
				}
			}
			for p, v := range got {
				if p != "\x00root" && want[p] == nil && v != 0 {
					f.Expected = fmt.Sprintf("%s %s: no %s", a.Date, side, p)
					return f
				}
			}
		}
	}
	return nil
}

type brow struct{ name, budgeted, activity, available string }
type bmonth struct {
	month string
	funds string
	rows  []brow
}

func readBudget(s string) []bmonth {
	var ms []bmonth
	for _, l := range strings.Split(s, "\n") {
		if m := regexp.MustCompile(`^(\d{4}-\d\d-\d\d) 00:00:00`).FindStringSubmatch(l); m != nil {
			ms = append(ms, bmonth{month: m[1]})
			continue
		}
		if len(ms) == 0 {
			continue
		}
		cur := &ms[len(ms)-1]
		fs := strings.Split(l, "|")
		for k := range fs {
			fs[k] = strings.TrimSpace(fs[k])
		}
		if len(fs) == 2 && fs[0] == "Funds" {
			cur.funds = fs[1]
		}
		if len(fs) >= 5 && fs[0] != "Category" {
			cur.rows = append(cur.rows, brow{fs[0], number(fs[1]), number(fs[2]), number(fs[3])})
		}
	}
	return ms
}

// number drops the commodity
func number(s string) string {
	return regexp.MustCompile(`-?\d+\.\d\d$`).FindString(s)
}

func budgetCLI(r *rand.Rand, x *X, layout bool) *Fail {
	g := &G{r: r, Budget: true, Periodic: true, Tight: true, Elide: chance(r, 3), Count: 1 + r.Intn(7), Dates: [2]int{2020, 2020}, Comms: false}
	if chance(r, 3) {
		g.Dates = [2]int{2019, 2021}
	}
	s, _ := g.file()
	files := one(s)
	d := x.Put(files)
	txs, err := Read(Abs(d, files), filepath.Join(d, "j"))
	if err != nil {
		return nil
	}
	args := []string{"-f", "j", "budget"}
	begin := ""
	if chance(r, 5) {
		begin = "2020-02-01"
		args = append(args, "-b", "2020-02-01")
	}
	type mm struct {
		env, exp map[string]*big.Int
		income   *big.Int
	}
	ms := map[string]*mm{}
	get := func(d string) *mm {
		m := ms[monthOf(d)]
		if m == nil {
			m = &mm{map[string]*big.Int{}, map[string]*big.Int{}, new(big.Int)}
			ms[monthOf(d)] = m
		}
		return m
	}
	for _, t := range txs {
		for _, p := range t.Ps {
			switch head, rest, deep := strings.Cut(p.Account, ":"); {
			case t.Periodic:
				m := get(t.Date)
				if p.Account != "_budget_root_" {
					rollup(m.env, head, p.Q)
					rollup(m.exp, head, 0)
				}
			case begin != "" && t.Date < begin:
			case head == "Expenses":
				if !deep {
					return nil // no category to record it under
				}
				c, _, _ := strings.Cut(rest, ":")
				m := get(t.Date)
				rollup(m.exp, c, -p.Q)
				rollup(m.env, c, 0)
			case head == "Income":
				m := get(t.Date)
				m.income.Sub(m.income, big.NewInt(p.Q))
			}
		}
	}
	o := x.CLI(d, nil, args...)
	f := fail("budget report", files, "", o.Stdout+o.Stderr)
	f.Args = args
	if o.crashed() || o.Timeout {
		f.Expected = "a report"
		return f
	}
	got := readBudget(o.Stdout)
	var want []bmonth
	var keys []string
	for k := range ms {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		m := ms[k]
		if !inRange(m.env) || !inRange(m.exp) || !m.income.IsInt64() {
			return nil
		}
		b := bmonth{month: k, funds: money(m.income.Int64())}
		var ns []string
		for n := range m.env {
			if n != "\x00root" {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			av := new(big.Int).Add(m.env[n], m.exp[n])
			if !av.IsInt64() {
				return nil
			}
			b.rows = append(b.rows, brow{n, money(m.env[n].Int64()), money(m.exp[n].Int64()), money(av.Int64())})
		}
		want = append(want, b)
	}
	f.Expected = show(want)
	if layout {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return f
		}
		return nil
	}
	// sums only: the order is judged elsewhere
	sort.Slice(got, func(i, j int) bool { return got[i].month < got[j].month })
	for k := range got {
		rows := got[k].rows
		sort.Slice(rows, func(i, j int) bool { return rows[i].name < rows[j].name })
		for m := range rows {
			rows[m].available = ""
		}
	}
	for k := range want {
		for m := range want[k].rows {
			want[k].rows[m].available = ""
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return f
	}
	return nil
}

func c15(r *rand.Rand, x *X, i int) *Fail { return budgetCLI(r, x, true) }

// ---------- C16, C17

func c16(r *rand.Rand, x *X, i int) *Fail {
	y := pick(r, 2020, 2019)
	g := &G{r: r, Elide: true, Tight: true, Dates: [2]int{y, 2020}, Count: pick(r, 2, 5, 13, 30, 60)}
	s, _ := g.file()
	if chance(r, 2) { // many on the same day
		s = regexp.MustCompile(`(?m)^(\d{4})-\d\d-\d\d`).ReplaceAllStringFunc(s, func(m string) string { return fmt.Sprintf("%s-01-%02d", m[:4], 1+r.Intn(3)) })
	}
	files := one(s)
	d := x.Put(files)
	txs, err := Read(Abs(d, files), filepath.Join(d, "j"))
	if err != nil {
		return nil
	}
	fs := []string{}
	if chance(r, 3) {
		fs = filters(r)
	}
	args := []string{"-f", "j", "print"}
	if len(fs) > 0 {
		args = append(append(args, "--"), fs...)
	}
	var want []string
	var sel []Tx
	for _, t := range txs {
		w, ps := selected(t, fs)
		if w || len(ps) > 0 {
			sel = append(sel, t)
		}
	}
	sort.SliceStable(sel, func(i, j int) bool { return sel[i].Date < sel[j].Date })
	for _, t := range sel {
		want = append(want, t.Date+" "+t.Payee)
	}
	o := x.CLI(d, nil, args...)
	var got []string
	for _, m := range regexp.MustCompile(`(?m)^(\d{4}-\d\d-\d\d) . (.*)$`).FindAllStringSubmatch(o.Stdout, -1) {
		got = append(got, m[1]+" "+m[2])
	}
	if !reflect.DeepEqual(got, want) || o.crashed() || o.Timeout {
		f := fail("transactions printed and their order", files, strings.Join(want, "\n"), o.Stdout+o.Stderr)
		f.Args = args
		return f
	}
	// each with all its postings
	blocks := regexp.MustCompile(`\n\n+`).Split(strings.TrimSpace(o.Stdout), -1)
	if len(want) == len(blocks) {
		for k, t := range sel {
			if strings.Count(blocks[k], "\n    ") != len(t.Ps) {
				f := fail("postings printed with transaction "+t.Payee, files, t, blocks[k])
				f.Args = args
				return f
			}
		}
	}
	return nil
}

func c17(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Header: true, Accounts: true, Comments: true, Comms: true, Amounts: true, Elide: chance(r, 2), Tight: true, Big: chance(r, 4), Junk: chance(r, 3)}
	s, _ := g.file()
	files := one(s)
	d := x.Put(files)
	p1 := x.CLI(d, nil, "-f", "j", "print")
	txs, err := Read(Abs(d, files), filepath.Join(d, "j"))
	if err != nil {
		return nil
	}
	files["printed"] = p1.Stdout
	d = x.Put(files)
	p2 := x.CLI(d, nil, "-f", "printed", "print")
	f := fail("print of what print printed", files, p1.Stdout, p2.Stdout+p2.Stderr)
	f.Args = []string{"-f", "printed", "print"}
	if p1.Stdout != p2.Stdout {
		return f
	}
	// and the same transactions
	a := x.API(&Req{Op: "parse", Path: filepath.Join(d, "j")})
	b := x.API(&Req{Op: "parse", Path: filepath.Join(d, "printed")})
	if a == nil || a.Panic != "" || b.Panic != "" || a.HasErr {
		return nil
	}
	if b.HasErr {
		f.Msg = "what print printed cannot be read"
		f.Actual = b.Err
		return f
	}
	key := func(ts []RTx) []string {
		sort.SliceStable(ts, func(i, j int) bool { return ts[i].Date < ts[j].Date })
		var ks []string
		for _, t := range ts {
			if t.Periodic {
				continue
			}
			k := fmt.Sprintf("%s %d %q %q %q", t.Date, t.State, t.Payee, t.Note, t.Notes)
			for _, p := range t.Postings {
				k += fmt.Sprintf(" [%q %q %d %q]", p.Account, p.Commodity, p.Quantity, p.Comments)
			}
			ks = append(ks, k)
		}
		return ks
	}
	_ = txs
	if ka, kb := key(a.Txs), key(b.Txs); !reflect.DeepEqual(ka, kb) {
		f.Msg = "transactions read back from print"
		f.Expected, f.Actual = strings.Join(ka, "\n"), strings.Join(kb, "\n")
		return f
	}
	return nil
}

// ---------- C18

func c18(r *rand.Rand, x *X, i int) *Fail {
	y, m, d := pick(r, 2020, 2019, 1999, 0, 1, 9999, 2000, 1900, r.Intn(10000)), r.Intn(14), r.Intn(33)
	sep := pick(r, "-", ".", "/")
	var s string
	switch r.Intn(6) {
	case 0:
		s = fmt.Sprintf("%04d", y)
	case 1:
		s = fmt.Sprintf("%04d%s%02d", y, sep, m)
	case 2:
		s = fmt.Sprintf("%02d%s%02d", m, sep, d)
	case 3, 4:
		s = fmt.Sprintf("%04d%s%02d%s%02d", y, sep, m, sep, d)
	default:
		s = pick(r, "2020-02-29", "2019-02-29", "2020-04-31", "1900-02-29", "2000/02/29", "2020-12-31", "2020-00-01", "2020-01-00", "02/29", "04.31", "12-31", "0000")
	}
	if chance(r, 3) {
		b := []byte(s)
		for range 1 + r.Intn(2) {
			k := r.Intn(len(b) + 1)
			c := pick(r, byte('-'), '.', '/', '+', ' ', '0', '1', '9', 'x', '_')
			switch r.Intn(3) {
			case 0:
				b = append(b[:k], append([]byte{c}, b[k:]...)...)
			case 1:
				if k < len(b) {
					b[k] = c
				}
			default:
				if k < len(b) && len(b) > 1 {
					b = append(b[:k], b[k+1:]...)
				}
			}
		}
		s = string(b)
	}
	today := time.Now()
	rp := x.API(&Req{Op: "smartdate", S: s})
	if rp == nil {
		return nil
	}
	if time.Now().Year() != today.Year() {
		return nil
	}
	want, ok := smart(s, today.Year())
	f := &Fail{Msg: "option date " + show(s), Request: Req{Op: "smartdate", S: s}, Expected: want, Actual: show(*rp)}
	if !ok {
		f.Expected = "an error"
	}
	if rp.Panic != "" || rp.HasErr == ok || ok && rp.Date != want {
		return f
	}
	return nil
}

func smart(s string, thisYear int) (string, bool) {
	for _, sep := range []string{"/", ".", "-"} {
		if !strings.Contains(s, sep) {
			continue
		}
		ps := strings.Split(s, sep)
		for _, p := range ps {
			if !digits(p) {
				return "", false
			}
		}
		var t string
		switch {
		case len(ps) == 2 && len(ps[0]) == 4:
			t = ps[0] + "-" + ps[1] + "-01"
		case len(ps) == 2:
			t = fmt.Sprintf("%04d-%s-%s", thisYear, ps[0], ps[1])
		case len(ps) == 3:
			t = strings.Join(ps, "-")
		default:
			return "", false
		}
		return t, validDate(t)
	}
	return s + "-01-01", len(s) == 4 && digits(s)
}

// ---------- C20, C22

func c20(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Header: true, Accounts: true, Elide: true, Tight: true, Comments: chance(r, 3), Count: 1 + r.Intn(10), Periodic: chance(r, 4)}
	s, _ := g.file()
	files := one(s)
	d := x.Put(files)
	txs, err := Read(Abs(d, files), filepath.Join(d, "j"))
	if err != nil {
		return nil
	}
	cmd := pick(r, "accounts", "payees")
	args := []string{"-f", "j", cmd}
	begin, end := "", ""
	if chance(r, 3) {
		begin = g.date()
		if begin < "1000" {
			begin = "2019-01-01"
		}
		args = append(args, "-b", begin)
	}
	if chance(r, 3) {
		end = "2020-06-01"
		args = append(args, "-e", end)
	}
	var fs []string
	if chance(r, 2) {
		for range 1 + r.Intn(2) {
			fs = append(fs, strings.TrimLeft(filterArg(r), "@="))
		}
		args = append(append(args, "--"), fs...)
	}
	set := map[string]bool{}
	for _, t := range txs {
		if t.Periodic || begin != "" && t.Date < begin || end != "" && t.Date >= end {
			continue
		}
		var vs []string
		if cmd == "payees" {
			vs = []string{t.Payee}
		} else {
			for _, p := range t.Ps {
				vs = append(vs, p.Account)
			}
		}
		for _, v := range vs {
			ok := len(fs) == 0
			for _, a := range fs {
				f, _ := mkFilter(a)
				ok = ok || f.re.MatchString(v)
			}
			if ok {
				set[v] = true
			}
		}
	}
	var want []string
	for v := range set {
		want = append(want, v)
	}
	sort.Strings(want)
	text := ""
	for _, v := range want {
		text += v + "\n"
	}
	o := x.CLI(d, nil, args...)
	if o.Stdout != text {
		f := fail("list of "+cmd, files, text, o.Stdout+o.Stderr)
		f.Args = args
		return f
	}
	return nil
}

func c22(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Header: chance(r, 2), Elide: true, Tight: true, Comments: chance(r, 3), Periodic: chance(r, 4)}
	files := map[string]string{}
	spread(g, pick(r, 0, 0, 2), files, "j")
	d := x.Put(files)
	txs, err := Read(Abs(d, files), filepath.Join(d, "j"))
	if err != nil {
		return nil
	}
	fs := []string{}
	if chance(r, 2) {
		fs = filters(r)
	}
	args := []string{"-f", filepath.Join(d, "j"), pick(r, "statistics", "stats", "s")}
	begin := ""
	if chance(r, 3) {
		begin = "2019-07-01"
		args = append(args, "-b", begin)
	}
	if len(fs) > 0 {
		args = append(append(args, "--"), fs...)
	}
	n := 0
	first, last := "", ""
	accts, payees, paths := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, t := range txs {
		if t.Periodic || begin != "" && t.Date < begin {
			continue
		}
		w, ps := selected(t, fs)
		if !w && len(ps) == 0 {
			continue
		}
		n++
		if first == "" || t.Date < first {
			first = t.Date
		}
		if t.Date > last {
			last = t.Date
		}
		for _, p := range ps {
			accts[p.Account] = true
		}
		payees[t.Payee] = true
		paths[filepath.Clean(t.File)] = true
	}
	if first == "0001-01-01" {
		return nil
	}
	o := x.CLI(d, nil, args...)
	get := func(re string) string {
		m := regexp.MustCompile(re).FindStringSubmatch(o.Stdout)
		if m == nil {
			return ""
		}
		return m[1]
	}
	got := fmt.Sprint(get(`found in (\d+) files`), " ", get(`First transaction:\s+(\S+)`), " ", get(`Last transaction:\s+(\S+)`), " ", get(`Transactions:\s+(\d+) `), " ", get(`Unique accounts:\s+(\d+)`), " ", get(`Unique payees:\s+(\d+)`))
	want := fmt.Sprint(len(paths), " ", first, " ", last, " ", n, " ", len(accts), " ", len(payees))
	if n == 0 {
		want = "     "
	}
	if got != want || o.crashed() || o.Timeout {
		f := fail("files, first date, last date, transactions, accounts, payees", files, want, o.Stdout+o.Stderr)
		f.Args = args
		return f
	}
	return nil
}

// ---------- C21

type tnode struct {
	name string
	q    int64
	kids map[string]*tnode
}

func (t *tnode) sorted() []*tnode {
	var ks []string
	for k := range t.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*tnode
	for _, k := range ks {
		r = append(r, t.kids[k])
	}
	return r
}

func treeText(t *tnode, depth int, collapse bool, pre func(*tnode) string) []string {
	var ls []string
	for _, c := range t.sorted() {
		name := c.name
		for collapse && len(c.kids) == 1 {
			c = c.sorted()[0]
			name += ":" + c.name
		}
		ls = append(ls, pre(c)+strings.Repeat("  ", depth)+name)
		ls = append(ls, treeText(c, depth+1, collapse, pre)...)
	}
	return ls
}

func flatText(t *tnode, path string, pre func(*tnode) string) []string {
	if len(t.kids) == 0 {
		return []string{pre(t) + path}
	}
	var ls []string
	for _, c := range t.sorted() {
		p := c.name
		if path != "" {
			p = path + ":" + c.name
		}
		ls = append(ls, flatText(c, p, pre)...)
	}
	return ls
}

func c21(r *rand.Rand, x *X, i int) *Fail {
	g := &G{r: r, Accounts: true}
	root := &tnode{kids: map[string]*tnode{}}
	var ops []Op
	for k := range 1 + r.Intn(14) {
		p := g.path(1, 5)
		if chance(r, 2) {
			p = g.path(3, 6)
		}
		q := int64(100*k + r.Intn(100))
		ops = append(ops, Op{Kind: "set", Path: p, Q: q, C: "£"})
		t := root
		for _, n := range p {
			if t.kids[n] == nil {
				t.kids[n] = &tnode{name: n, kids: map[string]*tnode{}}
			}
			t = t.kids[n]
		}
		t.q = q
	}
	set := map[*tnode]bool{}
	_ = set
	kinds := []string{"tree", "collapsed", "flat"}
	if i%3 == 0 { // through the balance command
		var b strings.Builder
		for k, o := range ops {
			fmt.Fprintf(&b, "2020-01-%02d P\n    %s    £%s\n    Zzz\n\n", 1+k%28, strings.Join(o.Path, ":"), money(o.Q))
		}
		m := map[string]*big.Int{}
		for _, o := range ops {
			rollup(m, strings.Join(o.Path, ":"), o.Q)
			rollup(m, "Zzz", -o.Q)
		}
		root.kids["Zzz"] = &tnode{name: "Zzz", kids: map[string]*tnode{}}
		k := r.Intn(3)
		args := []string{"-f", "j", "balance", "-Z"}
		switch k {
		case 1:
			args = append(args, "-C")
		case 2:
			args = append(args, "-F")
		}
		files := one(b.String())
		d := x.Put(files)
		o := x.CLI(d, nil, args...)
		pre := func(*tnode) string { return "" }
		want := treeText(root, 0, k == 1, pre)
		if k == 2 {
			want = flatText(root, "", pre)
		}
		ls, _, ok := balanceLines(o.Stdout)
		var got []string
		for _, l := range ls {
			got = append(got, strings.Repeat(" ", l.depth)+l.name)
		}
		if !ok || !reflect.DeepEqual(got, want) {
			f := fail("accounts shown, their order and indentation", files, strings.Join(want, "\n"), o.Stdout+o.Stderr)
			f.Args = args
			return f
		}
		// the amount before a name is that account's
		for n, l := range ls {
			okAmount := false
			for p, v := range m {
				if (p == l.name || strings.HasSuffix(p, ":"+l.name)) && money(v.Int64()) == l.amount {
					okAmount = true
				}
			}
			if !okAmount {
				f := fail("amount preceding "+got[n], files, "that account's amount", o.Stdout)
				f.Args = args
				return f
			}
		}
		return nil
	}
	for _, k := range kinds {
		ops = append(ops, Op{Kind: k})
	}
	rp := x.API(&Req{Op: "accounts", Ops: ops})
	if rp == nil {
		return nil
	}
	pre := func(t *tnode) string {
		if t.q == 0 {
			// untouched accounts have no commodity
			touched := false
			for _, o := range ops {
				n := root
				for _, c := range o.Path {
					if n = n.kids[c]; n == nil {
						break
					}
				}
				touched = touched || n == t && o.Kind == "set"
			}
			if !touched {
				return "<0.00>"
			}
		}
		return "<£" + money(t.q) + ">"
	}
	want := []string{strings.Join(treeText(root, 0, false, pre), "\n"), strings.Join(treeText(root, 0, true, pre), "\n"), strings.Join(flatText(root, "", pre), "\n")}
	if rp.Panic != "" || !reflect.DeepEqual(rp.Ss, want) {
		f := &Fail{Msg: "layouts (tree, collapsed, flat)", Request: ops, Expected: strings.Join(want, "\n--\n"), Actual: strings.Join(rp.Ss, "\n--\n") + rp.Panic}
		return f
	}
	return nil
}
