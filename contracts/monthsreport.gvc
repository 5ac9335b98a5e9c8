package cmd

// ---- the budget report

// t is among the first n months
spec amongMonths(ms []time.Time, t time.Time, n int) bool = n <= 0 ? false : ms[n - 1] == t || amongMonths(ms, t, n - 1)
spec whereMonth(ms []time.Time, t time.Time, n int) int = n <= 0 ? -1 : (ms[n - 1] == t ? n - 1 : whereMonth(ms, t, n - 1))
lemma amongMonthsWhere(ms []time.Time, t time.Time, n int)
  requires amongMonths(ms, t, n)
  ensures 0 <= whereMonth(ms, t, n) && whereMonth(ms, t, n) < n && ms[whereMonth(ms, t, n)] == t
  decreases n
  ih amongMonthsWhere(ms, t, n - 1) when ms[n - 1] != t
  trigger amongMonths(ms, t, n)
lemma amongMonthsAt(ms []time.Time, t time.Time, i int, n int)
  requires 0 <= i && i < n && ms[i] == t
  ensures amongMonths(ms, t, n)
  decreases n
  ih amongMonthsAt(ms, t, i, n - 1) when i < n - 1
  trigger amongMonths(ms, t, n), ms[i]
opaque distinctMonths(ms []time.Time) bool = forall i int, j int {ms[i], ms[j]} :: 0 <= i && i < len(ms) && 0 <= j && j < len(ms) && i != j ==> ms[i] != ms[j]
lemma amongMonthsMore(ms []time.Time, x time.Time, t time.Time, n int)
  requires 0 <= n && n <= len(ms)
  ensures amongMonths(ms ++ [x], t, n) == amongMonths(ms, t, n)
  decreases n
  ih amongMonthsMore(ms, x, t, n - 1) when n > 0
  trigger amongMonths(ms ++ [x], t, n)
lemma distinctMonthsMore(ms []time.Time, x time.Time)
  requires distinctMonths(ms) && !amongMonths(ms, x, len(ms))
  use forall i int {ms[i]} :: amongMonthsAt(ms, ms[i], i, len(ms))
  ensures distinctMonths(ms ++ [x])
  trigger distinctMonths(ms ++ [x])
opaque datesAscend(ms []time.Time) bool = forall i int, j int {ms[i], ms[j]} :: 0 <= i && i < j && j < len(ms) ==> !(instant(ms[j]) < instant(ms[i]))

// the months of a finite set in the order of time; a set of months has exactly one such list
uf inDateOrder(s set[time.Time]) []time.Time
axiom inDateOrderIs(ms []time.Time, s set[time.Time])
  requires distinctMonths(ms) && datesAscend(ms)
  requires forall t time.Time {amongMonths(ms, t, len(ms))} {s[t]} :: amongMonths(ms, t, len(ms)) == s[t]
  requires forall t time.Time {s[t]} :: s[t] ==> midnight(t)
  ensures ms == inDateOrder(s)
  trigger distinctMonths(ms), inDateOrder(s)

// the text of a point in time, as package time gives it
uf timeText(t time.Time) string
extern (t time.Time) String() (r string)
  flag pure
  ensures r == timeText(t)

uf padr(w int, s string) string
spec rowText(name string, e journal.Amount, x journal.Amount) string =
  padr(30, name) ++ " | " ++ padl(20, money(e.Quantity)) ++ " | " ++ padl(20, money(x.Quantity)) ++ " | " ++ padl(20, e.Commodity ++ money(e.Quantity + x.Quantity)) ++ " |\n"
// the rows of the first n categories
spec rowTexts(e *journal.Account, x *journal.Account, ns []string, n int) string = n <= 0 ? "" :
  rowTexts(e, x, ns, n - 1) ++ rowText(ns[n - 1], e.Children[ns[n - 1]].Amount, x.Children[ns[n - 1]].Amount)


spec monthText(t time.Time, m journal.BudgetMonth) string =
  timeText(t) ++ "\n\n" ++
  padl(30, m.Income.Name) ++ " | " ++ padl(20, m.Income.Amount.Commodity ++ money(m.Income.Amount.Quantity)) ++ "\n" ++
  padl(30, "Overspent in 2020-??") ++ " | " ++ padl(20, "£??.??") ++ "\n" ++
  padl(30, "Budgeted") ++ " | " ++ padl(20, "£??.??") ++ "\n" ++
  padl(30, "Budgeted in the future") ++ " | " ++ padl(20, "£??.??") ++ "\n" ++
  "-----------------------------------------------------\n" ++
  padl(30, "To be budgeted") ++ " | " ++ padl(20, "£??.??") ++ "\n\n\n" ++
  padr(30, "Category") ++ " | " ++ padr(20, "Budgeted") ++ " | " ++ padr(20, "Activity") ++ " | " ++ padr(20, "Available") ++ " |\n" ++
  "-----------------------------------------------------------------------------------------------------\n" ++
  rowTexts(m.EnvelopeRoot, m.ExpenseRoot, inOrder(dom(m.EnvelopeRoot.Children)), len(inOrder(dom(m.EnvelopeRoot.Children)))) ++ "\n"
// the first n months
spec monthTexts(ms map[time.Time]journal.BudgetMonth, ts []time.Time, n int) string = n <= 0 ? "" : monthTexts(ms, ts, n - 1) ++ monthText(ts[n - 1], ms[ts[n - 1]])

// every category has its spending, and what remains can be represented
spec remains(m journal.BudgetMonth, k string) bool = has(m.ExpenseRoot.Children, k) && allocd(m.EnvelopeRoot.Children[k]) && allocd(m.ExpenseRoot.Children[k]) && m.EnvelopeRoot.Children[k].Amount.Commodity == m.ExpenseRoot.Children[k].Amount.Commodity && fits(m.EnvelopeRoot.Children[k].Amount.Quantity + m.ExpenseRoot.Children[k].Amount.Quantity)
spec showable(m journal.BudgetMonth) bool = forall k string {has(m.EnvelopeRoot.Children, k)} :: has(m.EnvelopeRoot.Children, k) ==> remains(m, k)

func (bp *budgetProcessor) report()
  flag patient
  props C15
  requires bp != nil && budgetOK(addr(bp.budget)) && tree()
  requires months: forall m time.Time {has(bp.budget.Months, m)} :: has(bp.budget.Months, m) ==> midnight(m) && showable(bp.budget.Months[m])
  modifies out
  modifies sortPerm
  modifies sortInv
  inv <seen set[time.Time], ms []time.Time> : forall t time.Time {seen[t]} {amongMonths(ms, t, len(ms))} :: amongMonths(ms, t, len(ms)) == seen[t]
  inv <ms []time.Time> : distinctMonths(ms)
  inv <ms []time.Time> : forall i int {ms[i]} :: 0 <= i && i < len(ms) ==> has(bp.budget.Months, ms[i])
  inv <i int, ms []time.Time> : 0 <= i && distinctMonths(ms)
  inv <i int, ms []time.Time> : 0 <= i && datesAscend(ms)
  inv <i int, ms []time.Time> : 0 <= i && (forall t time.Time {has(bp.budget.Months, t)} {amongMonths(ms, t, len(ms))} :: amongMonths(ms, t, len(ms)) == has(bp.budget.Months, t))
  inv <i int, ms []time.Time> : 0 <= i && (distinctMonths(ms) && datesAscend(ms) && (forall t time.Time {dom(bp.budget.Months)[t]} {amongMonths(ms, t, len(ms))} :: amongMonths(ms, t, len(ms)) == dom(bp.budget.Months)[t]) ==> ms == inDateOrder(dom(bp.budget.Months)))
  inv <i int, ms []time.Time> : out == old(out) ++ old(monthTexts(bp.budget.Months, ms, i))
  inv <m journal.BudgetMonth> : old(showable(m))
  inv <ns []string, m journal.BudgetMonth> : old(forall j int {ns[j]} :: 0 <= j && j < len(ns) ==> has(m.EnvelopeRoot.Children, ns[j]))
  inv <m journal.BudgetMonth> : old(monthOK(m))
  inv <i int, ns []string, m journal.BudgetMonth> : out == entry(out) ++ old(rowTexts(m.EnvelopeRoot, m.ExpenseRoot, ns, i))
  ensures shown: out == old(out) ++ old(monthTexts(bp.budget.Months, inDateOrder(dom(bp.budget.Months)), len(inDateOrder(dom(bp.budget.Months)))))
