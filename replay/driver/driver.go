// Command driver is compiled into the module under test (through go build -overlay)
// and calls its exported API on requests read from standard input, one JSON object per
// line.  It contains no oracle: it only reports what the code under test did.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"time"

	"github.com/rikchilvers/gledger/journal"
	"github.com/rikchilvers/gledger/parser"
	"github.com/rikchilvers/gledger/reporting"
)

type req struct {
	Op        string
	Path      string
	S         string
	Args      []string
	StopAfter int // handler error after that many transactions (0: never)
	Ops       []op
	Tx        *tx
	Q, Q2     int64
	C, C2     string
	Flag      bool
}
type op struct {
	Kind string // find, add, rmzero, prune, budget kinds
	Path []string
	S    string
	Q    int64
	C    string
	Date string
	N    int
}
type posting struct {
	Account   string
	HasAmount bool
	Commodity string
	Quantity  int64
	Comments  []string
	Own       bool
}
type tx struct {
	Periodic bool
	Path     string
	Date     string
	Clock    string
	State    int
	Payee    string
	Note     string
	Notes    []string
	Postings []posting
	Text     string
}
type node struct {
	Name, Path, Full string
	Components       []string
	Quantity         int64
	Commodity        string
	ParentOK         bool
	KeyOK            bool
	Postings         int
	Children         []*node
}
type month struct {
	Date   string
	Env    *node
	Exp    *node
	Income int64
}
type resp struct {
	Txs    []tx
	Err    string
	HasErr bool
	Panic  string
	S      string
	Ss     []string
	B      bool
	Bs     []bool
	Ints   []int
	Q      int64
	C      string
	Tree   *node
	Trees  []*node
	Months []month
	Date   string
	Clock  string
	Same   []int
}

func snapshot(t *journal.Transaction, path string, periodic bool, date time.Time) tx {
	r := tx{Periodic: periodic, Path: path, Date: date.Format("2006-01-02"), Clock: date.Format("15:04:05.999999999 -0700"), State: int(t.State), Payee: t.Payee, Note: t.HeaderNote, Notes: append([]string{}, t.Notes...)}
	complete := true
	for _, p := range t.Postings {
		q := posting{Account: p.AccountPath, Comments: append([]string{}, p.Comments...), Own: p.Transaction == t}
		if p.Amount != nil {
			q.HasAmount = true
			q.Commodity, q.Quantity = p.Amount.Commodity, p.Amount.Quantity
		} else {
			complete = false
		}
		r.Postings = append(r.Postings, q)
	}
	if complete {
		r.Text = t.String()
	}
	return r
}

func dump(a *journal.Account, seen map[*journal.Account]bool) *node {
	if seen[a] {
		return &node{Name: "!!cycle or shared!!"}
	}
	seen[a] = true
	n := &node{Name: a.Name, Path: a.Path, Components: append([]string{}, a.PathComponents...), Quantity: a.Amount.Quantity, Commodity: a.Amount.Commodity, ParentOK: true, KeyOK: true, Postings: len(a.Postings)}
	var ks []string
	for k := range a.Children {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := a.Children[k]
		m := dump(c, seen)
		m.ParentOK = c.Parent == a
		m.KeyOK = c.Name == k
		n.Children = append(n.Children, m)
	}
	return n
}

func build(x *tx) *journal.Transaction {
	t := journal.NewTransaction()
	t.Payee, t.HeaderNote, t.State = x.Payee, x.Note, journal.TransactionState(x.State)
	t.Date, _ = time.Parse("2006-01-02", x.Date)
	t.Notes = append(t.Notes, x.Notes...)
	for i := range x.Postings {
		p := journal.NewPosting()
		p.Transaction = &t
		p.AccountPath = x.Postings[i].Account
		p.Comments = append(p.Comments, x.Postings[i].Comments...)
		if x.Postings[i].HasAmount {
			p.Amount = journal.NewAmount(x.Postings[i].Commodity, x.Postings[i].Quantity)
		}
		t.Postings = append(t.Postings, p)
	}
	return &t
}

func handle(q *req) (r resp) {
	defer func() {
		if e := recover(); e != nil {
			r = resp{Panic: fmt.Sprint(e)}
		}
	}()
	seterr := func(err error) {
		if err != nil {
			r.Err, r.HasErr = err.Error(), true
		}
	}
	switch q.Op {
	case "parse":
		f, err := os.Open(q.Path)
		if err != nil {
			seterr(err)
			return
		}
		defer f.Close()
		n := 0
		stop := func() error {
			n++
			if q.StopAfter > 0 && n >= q.StopAfter {
				return errors.New("handler refuses")
			}
			return nil
		}
		p := parser.NewParser(func(t *journal.Transaction, path string) error {
			r.Txs = append(r.Txs, snapshot(t, path, false, t.Date))
			return stop()
		}, func(t *journal.PeriodicTransaction, path string) error {
			r.Txs = append(r.Txs, snapshot(&t.Transaction, path, true, t.Period.StartDate))
			return stop()
		})
		seterr(p.Parse(f, q.Path))
	case "smartdate":
		d, err := parser.ParseSmartDate(q.S)
		seterr(err)
		r.Date, r.Clock = fmt.Sprintf("%04d-%02d-%02d", d.Year(), int(d.Month()), d.Day()), d.Format("15:04:05.999999999")
	case "today":
		r.Date = time.Now().Format("2006-01-02")
	case "display":
		a := journal.NewAmount(q.C, q.Q)
		r.S = a.DisplayableQuantity(q.Flag)
		r.Ss = []string{a.String(), fmt.Sprint(*a)}
		r.Q, r.C = a.Quantity, a.Commodity
	case "addsub":
		a, b := journal.NewAmount(q.C, q.Q), journal.NewAmount(q.C2, q.Q2)
		if q.Flag {
			seterr(a.Subtract(*b))
		} else {
			seterr(a.Add(*b))
		}
		r.Q, r.C = a.Quantity, a.Commodity
	case "accounts": // operations on one tree
		root := journal.NewAccount(journal.RootID)
		if q.S != "" {
			root = journal.NewAccount(q.S)
		}
		ids := map[*journal.Account]int{}
		var j journal.Journal
		j = journal.NewJournal()
		j.Root = root
		t := journal.NewTransaction()
		for _, o := range q.Ops {
			switch o.Kind {
			case "find":
				a := root.FindOrCreateAccount(append([]string{}, o.Path...))
				if _, ok := ids[a]; !ok {
					ids[a] = len(ids)
				}
				r.Same = append(r.Same, ids[a])
				r.Ss = append(r.Ss, a.CreatePath())
			case "add":
				p := journal.NewPosting()
				p.Transaction = &t
				p.AccountPath = o.S
				p.Amount = journal.NewAmount(o.C, o.Q)
				seterr(j.AddPosting(p))
				r.Bs = append(r.Bs, p.Account != nil && len(p.Account.Postings) > 0 && p.Account.Postings[len(p.Account.Postings)-1] == p)
			case "set":
				a := root.FindOrCreateAccount(append([]string{}, o.Path...))
				a.Amount.Quantity, a.Amount.Commodity = o.Q, o.C
			case "rmzero":
				root.RemoveEmptyChildren()
			case "prune":
				root.PruneChildren(o.N, 0)
			case "dump":
				r.Trees = append(r.Trees, dump(root, map[*journal.Account]bool{}))
			case "names":
				r.Ss = append(r.Ss, root.SortedChildNames()...)
			case "tree", "collapsed":
				r.Ss = append(r.Ss, reporting.Tree(*root, func(a journal.Account) string { return "<" + a.Amount.DisplayableQuantity(true) + ">" }, o.Kind == "collapsed"))
			case "flat":
				r.Ss = append(r.Ss, reporting.FlattenedTree(*root, func(a journal.Account) string { return "<" + a.Amount.DisplayableQuantity(true) + ">" }))
			}
		}
	case "filter":
		t := build(q.Tx)
		for _, a := range q.Args {
			f, err := reporting.NewFilter(a)
			seterr(err)
			if err != nil {
				return
			}
			mp, mn, ps := f.MatchesTransactionHow(*t)
			r.Bs = append(r.Bs, mp, mn, f.MatchesTransaction(*t))
			r.Ints = append(r.Ints, -1)
			for _, p := range ps {
				for i := range t.Postings {
					if t.Postings[i] == p {
						r.Ints = append(r.Ints, i)
					}
				}
			}
			r.B = f.MatchesString(q.S)
		}
	case "budget":
		b := journal.NewBudget()
		for _, o := range q.Ops {
			t := journal.NewTransaction()
			t.Date, _ = time.Parse("2006-01-02", o.Date)
			p := journal.NewPosting()
			p.Transaction = &t
			p.AccountPath = o.S
			p.Amount = journal.NewAmount(o.C, o.Q)
			k := journal.EnvelopePosting
			switch o.Kind {
			case "expense":
				k = journal.ExpensePosting
			case "income":
				k = journal.IncomePosting
			}
			if err := b.AddPosting(p, k); err != nil {
				seterr(err)
				return
			}
		}
		for d, m := range b.Months {
			r.Months = append(r.Months, month{Date: d.Format("2006-01-02"), Env: dump(m.EnvelopeRoot, map[*journal.Account]bool{}), Exp: dump(m.ExpenseRoot, map[*journal.Account]bool{}), Income: m.Income.Amount.Quantity})
		}
		sort.Slice(r.Months, func(i, j int) bool { return r.Months[i].Date < r.Months[j].Date })
	case "tx": // AddPosting and Close
		t := journal.NewTransaction()
		for i := range q.Tx.Postings {
			x := &q.Tx.Postings[i]
			p := journal.NewPosting()
			p.Transaction = &t
			p.AccountPath = x.Account
			if x.HasAmount {
				p.Amount = journal.NewAmount(x.Commodity, x.Quantity)
			}
			if err := t.AddPosting(p); err != nil {
				seterr(err)
				return
			}
		}
		seterr(t.Close())
		r.Txs = []tx{snapshot(&t, "", false, t.Date)}
	}
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	// anything the code under test prints must not disturb the protocol
	real := os.Stdout
	out = bufio.NewWriter(real)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q req
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return
		}
		b, _ := json.Marshal(handle(&q))
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
