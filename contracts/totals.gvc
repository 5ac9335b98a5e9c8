package cmd

// ---- the balance report's totals

// what posting p adds to account x
spec share(x *journal.Account, p *journal.Posting) int = anc(x, p.Account) ? p.Amount.Quantity : 0

// what the selected ones among the first n postings add to x
spec selectedTotal(x *journal.Account, ps []*journal.Posting, every bool, n int) int =
  n <= 0 ? 0 : selectedTotal(x, ps, every, n - 1) + (every || postingMatch(ps[n - 1], len(filters)) ? share(x, ps[n - 1]) : 0)

// what those of the first m of tp add which are among the first n of ps
spec picked(x *journal.Account, tp []*journal.Posting, ps []*journal.Posting, n int, m int) int =
  m <= 0 ? 0 : picked(x, tp, ps, n, m - 1) + (holds(ps, tp[m - 1], n) ? share(x, tp[m - 1]) : 0)

lemma heldBefore(ps []*journal.Posting, n int, m int)
  requires distinctPostings(ps) && 0 <= m && m <= n && n < len(ps)
  ensures !holds(ps, ps[n], m)
  decreases m
  ih heldBefore(ps, n, m - 1) when m > 0

lemma pickedNone(x *journal.Account, tp []*journal.Posting, ps []*journal.Posting, m int)
  ensures picked(x, tp, ps, 0, m) == 0
  decreases m
  ih pickedNone(x, tp, ps, m - 1) when m > 0

lemma pickedMore(x *journal.Account, tp []*journal.Posting, ps []*journal.Posting, n int, m int)
  requires distinctPostings(tp) && distinctPostings(ps) && 0 < n && n <= len(ps) && 0 <= m && m <= len(tp)
  use heldBefore(ps, n - 1, n - 1)
  use heldBefore(tp, m - 1, m - 1) when m > 0
  ensures picked(x, tp, ps, n, m) == picked(x, tp, ps, n - 1, m) + (holds(tp, ps[n - 1], m) ? share(x, ps[n - 1]) : 0)
  decreases m
  ih pickedMore(x, tp, ps, n, m - 1) when m > 0

lemma pickedTotal(x *journal.Account, tp []*journal.Posting, ps []*journal.Posting, n int)
  requires distinctPostings(tp) && distinctPostings(ps) && 0 <= n && n <= len(ps)
  requires forall i int {ps[i]} :: 0 <= i && i < len(ps) ==> holds(tp, ps[i], len(tp))
  use pickedNone(x, tp, ps, len(tp))
  use pickedMore(x, tp, ps, n, len(tp))
  ensures total(x, ps, n) == picked(x, tp, ps, n, len(tp))
  decreases n
  ih pickedTotal(x, tp, ps, n - 1) when n > 0

lemma pickedSelected(x *journal.Account, tp []*journal.Posting, ps []*journal.Posting, every bool, m int)
  requires !every
  requires forall any p *journal.Posting {holds(ps, p, len(ps))} :: holds(ps, p, len(ps)) == (holds(tp, p, len(tp)) && postingMatch(p, len(filters)))
  requires 0 <= m && m <= len(tp)
  use holdsIndex(tp, m - 1, len(tp)) when m > 0
  ensures picked(x, tp, ps, len(ps), m) == selectedTotal(x, tp, every, m)
  decreases m
  ih pickedSelected(x, tp, ps, every, m - 1) when m > 0

lemma everyTotal(x *journal.Account, ps []*journal.Posting, every bool, n int)
  requires every
  ensures total(x, ps, n) == selectedTotal(x, ps, every, n)
  decreases n
  ih everyTotal(x, ps, every, n - 1) when n > 0
  trigger total(x, ps, n), selectedTotal(x, ps, every, n)

lemma chosenTotal(x *journal.Account, tp []*journal.Posting, ps []*journal.Posting, every bool)
  requires !every && distinctPostings(tp) && distinctPostings(ps)
  requires forall any p *journal.Posting {holds(ps, p, len(ps))} :: holds(ps, p, len(ps)) == (holds(tp, p, len(tp)) && postingMatch(p, len(filters)))
  use forall i int {ps[i]} :: holdsIndex(ps, i, len(ps))
  use pickedTotal(x, tp, ps, len(ps))
  use pickedSelected(x, tp, ps, every, len(tp))
  ensures total(x, ps, len(ps)) == selectedTotal(x, tp, every, len(tp))
  trigger total(x, ps, len(ps)), selectedTotal(x, tp, every, len(tp))

// the posting stands in the account its path names
spec placed(root *journal.Account, ps []*journal.Posting, n int) bool =
  forall i int {ps[i]} :: 0 <= i && i < n ==> ps[i].Account != nil && allocd(ps[i].Account) && ps[i].Account == walk(root, split(ps[i].AccountPath, ":"))

func (bp *balanceProcessor) transactionHandler(t *journal.Transaction, location string) (err error)
  props C05
  flag patient
  requires bp != nil && bp.journal.Root != nil && tree()
  requires t != nil && midnight(t.Date) && validFilters() && validPostings(t.Postings) && distinctPostings(t.Postings)
  requires unplaced: forall i int {t.Postings[i]} :: 0 <= i && i < len(t.Postings) ==> t.Postings[i].Account == nil && whole(t.Postings[i].Amount)
  modifies now, out
  modifies bp.journal.transactions, bp.journal.filePaths
  modifies journal.Posting.Account[*] where p: p != nil
  modifies mapclass(bp.journal.Root.Children)
  modifies journal.Account.Postings[*]
  modifies journal.Account.Transactions[*]
  modifies journal.Account.Amount.Quantity[*]
  modifies journal.Account.Amount.Commodity[*]
  inv tree()
  inv <i int, ps []*journal.Posting> : placed(bp.journal.Root, ps, i)
  inv <i int, ps []*journal.Posting> : recorded(ps, i)
  inv <i int, ps []*journal.Posting> : forall j int {ps[j]} :: i <= j && j < len(ps) ==> ps[j].Account == nil
  inv <i int, ps []*journal.Posting> : forall j int {ps[j]} :: 0 <= j && j < len(ps) ==> whole(ps[j].Amount)
  inv <i int, ps []*journal.Posting> : forall x *journal.Account {x.Amount.Quantity} :: x.Amount.Quantity == (fresh(x) ? 0 : old(x.Amount.Quantity)) + total(x, ps, i)
  ensures refused: !dateOptionsOK() ==> err != nil
  ensures skipped: err == nil && !selected(*t) ==> (forall x *journal.Account {x.Amount.Quantity} :: !fresh(x) && x.Amount.Quantity == old(x.Amount.Quantity))
  ensures rolled: err == nil && selected(*t) ==> (forall x *journal.Account {x.Amount.Quantity} :: x.Amount.Quantity == (fresh(x) ? 0 : old(x.Amount.Quantity)) + selectedTotal(x, t.Postings, selectedWhole(*t), len(t.Postings)))
