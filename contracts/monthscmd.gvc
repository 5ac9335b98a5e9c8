package cmd

// ---- what is given to the budget
// 1: spent, 2: income, -1: neither
spec head(p *journal.Posting) string = split(p.AccountPath, ":")[0]
spec kindOf(p *journal.Posting) int = head(p) == journal.ExpensesID ? 1 : (head(p) == journal.IncomeID ? 2 : 0 - 1)
// p is one of the selected postings of t
spec chosenPosting(t *journal.Transaction, p *journal.Posting) bool =
  selected(*t) && holds(t.Postings, p, len(t.Postings)) && (selectedWhole(*t) || postingMatch(p, len(filters)))

func (bp *budgetProcessor) transactionHandler(t *journal.Transaction, location string) (err error)
  props C14
  requires bp != nil && budgetOK(addr(bp.budget)) && tree()
  requires t != nil && midnight(t.Date) && validFilters() && validPostings(t.Postings) && distinctPostings(t.Postings)
  requires unplaced: forall i int {t.Postings[i]} :: 0 <= i && i < len(t.Postings) ==> t.Postings[i].Account == nil && whole(t.Postings[i].Amount) && t.Postings[i].Transaction == t
  requires budgeted == []*journal.Posting && budgetedAs == []int
  modifies now, out, budgeted, budgetedAs
  modifies journal.Posting.Account[*]
  modifies mapclass(t.Postings[0].Account.Children)
  modifies entries(bp.budget.Months)
  modifies journal.Account.Postings[*]
  modifies journal.Account.Path[*]
  modifies journal.Account.PathComponents[*]
  modifies journal.Account.Amount.Quantity[*]
  modifies journal.Account.Amount.Commodity[*]
  inv tree()
  inv budgetOK(addr(bp.budget))
  inv <i int, ps []*journal.Posting> : forall any p *journal.Posting {holds(budgeted, p, len(budgeted))} {holds(ps, p, i)} :: holds(budgeted, p, len(budgeted)) == (holds(ps, p, i) && kindOf(p) >= 0)
  inv <i int, ps []*journal.Posting> : forall j int {ps[j]} :: i <= j && j < len(ps) ==> ps[j].Account == nil
  inv distinctPostings(budgeted)
  inv len(budgetedAs) == len(budgeted)
  inv forall j int {budgetedAs[j]} {budgeted[j]} :: 0 <= j && j < len(budgeted) ==> budgetedAs[j] == kindOf(budgeted[j])
  ensures refused: !dateOptionsOK() ==> err != nil
  ensures tree: tree()
  ensures months: budgetOK(addr(bp.budget))
  ensures all: err == nil ==> (forall any p *journal.Posting {holds(budgeted, p, len(budgeted))} :: holds(budgeted, p, len(budgeted)) == (chosenPosting(t, p) && kindOf(p) >= 0))
  ensures once: distinctPostings(budgeted)
  ensures kinds: len(budgetedAs) == len(budgeted) && (forall j int {budgetedAs[j]} :: 0 <= j && j < len(budgeted) ==> budgetedAs[j] == kindOf(budgeted[j]))

// the postings of a budget entry are allocations, each given to the budget once and in order
func (bp *budgetProcessor) periodicTransactionHandler(pt *journal.PeriodicTransaction, location string) (err error)
  props C14
  requires bp != nil && budgetOK(addr(bp.budget)) && tree()
  requires pt != nil && pt.Period.Interval == journal.PNone && midnight(pt.Period.StartDate) && validPostings(pt.Transaction.Postings) && distinctPostings(pt.Transaction.Postings)
  requires unplaced: forall i int {pt.Transaction.Postings[i]} :: 0 <= i && i < len(pt.Transaction.Postings) ==> pt.Transaction.Postings[i].Account == nil && whole(pt.Transaction.Postings[i].Amount) && pt.Transaction.Postings[i].Transaction == addr(pt.Transaction)
  requires budgeted == []*journal.Posting && budgetedAs == []int
  modifies out, budgeted, budgetedAs
  modifies pt.Transaction.Date
  modifies journal.Posting.Account[*]
  modifies mapclass(pt.Transaction.Postings[0].Account.Children)
  modifies entries(bp.budget.Months)
  modifies journal.Account.Postings[*]
  modifies journal.Account.Path[*]
  modifies journal.Account.PathComponents[*]
  modifies journal.Account.Amount.Quantity[*]
  modifies journal.Account.Amount.Commodity[*]
  inv tree()
  inv budgetOK(addr(bp.budget))
  inv <i int> : budgeted == pt.Transaction.Postings[:i]
  inv <i int> : forall j int {pt.Transaction.Postings[j]} :: i <= j && j < len(pt.Transaction.Postings) ==> pt.Transaction.Postings[j].Account == nil
  inv len(budgetedAs) == len(budgeted)
  inv forall j int {budgetedAs[j]} {budgeted[j]} :: 0 <= j && j < len(budgeted) ==> budgetedAs[j] == journal.EnvelopePosting
  ensures tree: tree()
  ensures months: budgetOK(addr(bp.budget))
  ensures all: err == nil ==> budgeted == pt.Transaction.Postings
  ensures kinds: len(budgetedAs) == len(budgeted) && (forall j int {budgetedAs[j]} {budgeted[j]} :: 0 <= j && j < len(budgeted) ==> budgetedAs[j] == journal.EnvelopePosting)
