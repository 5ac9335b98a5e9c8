package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// G chooses which features of a journal vary; what is off stays plain
type G struct {
	r        *rand.Rand
	Header   bool // date separators, states, payees, notes
	Accounts bool // unusual account names and layouts
	Comments bool // comment lines
	Amounts  bool // unusual amount texts
	Big      bool // amounts near the limits
	Elide    bool
	Comms    bool // commodities
	Periodic bool
	Tight    bool // entries need not be separated by blank lines
	Junk     bool // column 0 comments and blank lines
	Dates    [2]int
	Zero     bool // many zero amounts and cancelling entries
	Budget   bool // Expenses and Income accounts, budget allocations
	Count    int  // number of entries (0: random)
	n        int
	Lead     bool // components may begin with a space (ambiguous in the tree layout)
}

var comps = []string{"Assets", "Bank", "Cash", "Expenses", "Food", "Food Out", "Income", "Work", "Équipe", "a", "A", "B", "zz", "Ass", "Assets2", "x-y", "x.y", "日本", "Old Name", "Sub", "sub", "Z9", "été"}

func (g *G) comp() string { return comps[g.r.Intn(len(comps))] }

func (g *G) account() string {
	if g.Budget {
		switch g.r.Intn(8) {
		case 0, 1, 2, 3:
			return strings.Join(append([]string{"Expenses"}, g.path(1, 3)...), ":")
		case 4, 5:
			return pick(g.r, "Income", "Income:Work", "Income:Other:Deep")
		case 6:
			return pick(g.r, "Incomes", "ExpensesOld:Food", "expenses:Food", "Assets:Expenses:Food", "Assets:Income")
		}
		return pick(g.r, "Assets:Bank", "Assets:Cash", "Liabilities")
	}
	if !g.Accounts {
		return strings.Join(g.path(1, 3), ":")
	}
	switch g.r.Intn(10) {
	case 0:
		return pick(g.r, "A;b", "A #1", "A ;x", "A::B", "A:", "A:B:", "a b c:d e", "Ω:ß", "A=b", "A@b", "A(b)", "A 1.5", "A -5", "Ñandú:x y", "A/B", "A!b*", "A\u00a0b")
	}
	return strings.Join(g.path(1, 4), ":")
}

func (g *G) path(lo, hi int) []string {
	n := lo + g.r.Intn(hi-lo+1)
	var p []string
	for range n {
		if g.Accounts || chance(g.r, 3) {
			p = append(p, g.comp())
		} else {
			p = append(p, pick(g.r, "A", "B", "C", "Food"))
		}
	}
	if g.Accounts && chance(g.r, 8) {
		g.vary(p)
	}
	return p
}

// vary makes a path which is easily confused with another one
func (g *G) vary(p []string) {
	k := g.r.Intn(len(p))
	c := []rune(p[k])
	switch g.r.Intn(7) {
	case 0:
		if k < len(p)-1 {
			p[k] += " "
		}
	case 1:
		if k > 0 && g.Lead {
			p[k] = " " + p[k]
		}
	case 2:
		if k > 0 {
			p[k] = p[k-1]
		}
	case 3:
		p[k] = strings.ToUpper(p[k])
	case 4:
		p[k] = strings.ToLower(p[k])
	case 5:
		if len(c) > 1 {
			p[k] = string(c[:len(c)-1])
			if strings.HasSuffix(p[k], " ") {
				p[k] = "Q"
			}
		}
	case 6:
		p[k] += "."
	}
}

func (g *G) quantity() int64 {
	r := g.r
	if g.Zero && chance(r, 3) {
		return 0
	}
	if g.Big && chance(r, 4) {
		return pick(r, int64(1<<63-1), -(1<<63 - 1), 1<<62, -(1 << 62), 1<<53+1, -(1<<53 + 1), 9223372036854775799, 92233720368547758, 4611686018427387905, 9007199254740993, int64(r.Uint64()>>1), -int64(r.Uint64()>>1))
	}
	switch r.Intn(6) {
	case 0:
		return int64(r.Intn(21) - 10)
	case 1:
		return int64(r.Intn(200) - 100)
	case 2:
		return int64(r.Intn(20)-10) * 100
	case 3:
		return int64(r.Intn(2000000)-1000000) * int64(1+r.Intn(1000))
	}
	return int64(r.Intn(20000) - 10000)
}

// amountText spells q in one of the ways it may be written
func (g *G) amountText(q int64) string {
	neg := q < 0
	u := uint64(q)
	if neg {
		u = -u
	}
	s := fmt.Sprintf("%d.%02d", u/100, u%100)
	if g.Amounts {
		if u%100 == 0 && chance(g.r, 2) {
			s = fmt.Sprint(u / 100)
		} else if u%10 == 0 && chance(g.r, 2) {
			s = s[:len(s)-1]
		}
		if chance(g.r, 8) {
			s = strings.Repeat("0", 1+g.r.Intn(3)) + s
		}
		if !neg && chance(g.r, 8) {
			s = "+" + s
		}
	}
	if neg {
		s = "-" + s
	}
	return s
}

func (g *G) date() string {
	r := g.r
	y, m, d := 2018+r.Intn(4), 1+r.Intn(12), 1+r.Intn(28)
	if g.Dates[0] != 0 {
		y = g.Dates[0] + r.Intn(g.Dates[1]-g.Dates[0]+1)
		m = 1 + r.Intn(3)
	}
	if chance(r, 6) {
		d = daysIn(y, m)
	}
	if chance(r, 8) {
		d = 1
	}
	if chance(r, 12) {
		m, d = 12, 31
	}
	if g.Header && chance(r, 10) {
		y, m, d = pick(r, 0, 1, 1969, 1970, 9999, 2000, 1900, 2038, 2100), 2, 28
		if daysIn(y, 2) == 29 {
			d = 29
		}
	}
	return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
}

var words = []string{"Shop", "shop", "The Corner Café", "O'Brien & Sons", "x", "No. 12", "ACME (UK)", "50% off", "naïve", "日本 の", "a:b", "@home", "=eq", "E-mail", "2020", "- -", "!bang", "p*", "~x", "i", "$5", "Łódź", "a\u00a0b", "%d %s", "\\n", "ſ", "K"}

func (g *G) phrase() string {
	if chance(g.r, 4) {
		return pick(g.r, words...) + " " + pick(g.r, words...)
	}
	return pick(g.r, words...)
}

// note text: anything printable, including comment marks and runs of spaces
func (g *G) note() string {
	s := g.phrase()
	if chance(g.r, 10) {
		return pick(g.r, "", "", " ", "  ", ";", "#")
	}
	if chance(g.r, 3) {
		s += pick(g.r, "; more", " # x", "  two  spaces", "\ttab", ";", "#", " ;; a")
	}
	if chance(g.r, 8) {
		s = pick(g.r, "; ", "#", ";") + s
	}
	return s
}

type entry struct {
	lines []string
	payee string
}

func (g *G) sep() string {
	return pick(g.r, "  ", "\t", "   ", "    ", "  \t", "\t\t", "\t ", "       ")
}
func (g *G) indent() string {
	if g.Accounts || g.Comments {
		return pick(g.r, "  ", "    ", "\t", "\t ", "   ", "  \t", "\t\t")
	}
	return "    "
}

var commodities = []string{"", "", "£", "$", "€", "GBP ", "USD ", "kg", "Ω "}

func (g *G) entry() entry {
	r := g.r
	g.n++
	var e entry
	date := g.date()
	periodic := g.Periodic && chance(r, 4)
	e.payee = fmt.Sprintf("P%03d", g.n)
	if periodic {
		e.lines = append(e.lines, "~ "+date[:7])
	} else {
		h := date
		if g.Header {
			h = strings.ReplaceAll(h, "-", pick(r, "-", ".", "/"))
			if chance(r, 3) {
				e.payee = fmt.Sprintf("P%03d %s", g.n, g.phrase())
			} else if chance(r, 3) {
				e.payee = g.phrase()
			} else if chance(r, 12) {
				e.payee = ""
			}
			e.payee = strings.TrimSpace(e.payee)
			gap := func() string { return pick(r, " ", " ", "  ", "   ", "\t", " \t ") }
			first := pick(r, " ", " ", "  ", "   ", " \t")
			h += first
			st := pick(r, "", "", "!", "*")
			h += st
			if st != "" {
				h += pick(r, gap(), gap(), "")
			}
			p := e.payee
			if st == "" && (strings.HasPrefix(p, "!") || strings.HasPrefix(p, "*")) {
				p = "x" + p
			}
			e.payee = p
			h += p
			switch r.Intn(5) {
			case 0:
				h += pick(r, "  ", "   ", "\t", " ", "") + pick(r, ";", "#") + pick(r, " ", "", "  ") + g.note()
			case 1:
				h += pick(r, " ", "  ;", "\t;", "", ";")
			}
		} else {
			h += " " + pick(r, "", "* ", "! ") + e.payee
		}
		e.lines = append(e.lines, h)
	}
	note := func() {
		for g.Comments && chance(r, 3) {
			e.lines = append(e.lines, g.indent()+pick(r, ";", "#")+pick(r, " ", "", "  ")+g.note())
		}
		for g.Junk && chance(r, 6) {
			e.lines = append(e.lines, pick(r, "; ignored", "# ignored", ";", "#x", "    ", "\t"))
		}
	}
	note()
	n := 1 + r.Intn(4)
	if periodic && g.Budget {
		n = r.Intn(4)
	}
	var sum int64
	over := false
	type pl struct {
		acct, comm string
		q          int64
		has        bool
	}
	var ps []pl
	comm := ""
	if g.Comms {
		comm = pick(r, commodities...)
	}
	for range n {
		q := g.quantity()
		if sum+q-q != sum || (q > 0 && sum > (1<<63-1)-q) || (q < 0 && sum < -(1<<63-1)-q) {
			q = 1
		}
		if (q > 0 && sum > (1<<63-1)-q) || (q < 0 && sum < -(1<<63-1)-q) {
			over = true
			q = 0
		}
		sum += q
		a := g.account()
		if periodic && g.Budget {
			a = strings.Join(g.path(1, 3), ":")
		}
		ps = append(ps, pl{a, comm, q, true})
	}
	_ = over
	switch {
	case g.Elide && chance(r, 2):
		k := r.Intn(len(ps) + 1)
		ps = append(ps[:k], append([]pl{{g.account(), "", 0, false}}, ps[k:]...)...)
	case periodic:
		// a budget entry is completed by the budget source, written or implied
		if chance(r, 3) && !g.Budget {
			ps = append(ps, pl{g.account(), comm, -sum, true})
		}
	default:
		k := r.Intn(len(ps) + 1)
		ps = append(ps[:k], append([]pl{{g.account(), comm, -sum, true}}, ps[k:]...)...)
	}
	for _, p := range ps {
		l := g.indent() + p.acct
		if p.has {
			l += g.sepOr("    ") + p.comm + g.amountText(p.q)
			if g.Accounts && chance(r, 8) {
				l += pick(r, " ", "  ", "\t", " ; c", "  ; c", ";c", "  # c")
			}
		} else if g.Accounts && chance(r, 4) {
			l += pick(r, " ", "  ", "\t", "  ; c", "\t# c")
		}
		e.lines = append(e.lines, l)
		note()
	}
	return e
}

func (g *G) sepOr(plain string) string {
	if g.Accounts {
		return g.sep()
	}
	return plain
}

// file writes a number of entries
func (g *G) file() (string, []entry) {
	n := g.Count
	if n == 0 {
		n = 1 + g.r.Intn(5)
		if chance(g.r, 12) {
			n = 1 + g.r.Intn(30)
		}
	}
	var es []entry
	var b strings.Builder
	for i := range n {
		if g.Junk && chance(g.r, 3) {
			b.WriteString(pick(g.r, "\n", "; comment\n", "# c\n\n", "\n\n"))
		}
		e := g.entry()
		es = append(es, e)
		b.WriteString(strings.Join(e.lines, "\n"))
		if i < n-1 || !g.Tight || chance(g.r, 2) {
			b.WriteString("\n")
		}
		if i < n-1 && !(g.Tight && chance(g.r, 2)) {
			b.WriteString("\n")
		}
	}
	return b.String(), es
}
