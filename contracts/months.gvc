package journal

// ---- budget months

// the first of a month, at midnight
uf monthStart(y int, m int) time.Time
axiom monthStartIs(y int, m int)
  requires 1 <= m && m <= 12
  ensures midnight(monthStart(y, m)) && civil(monthStart(y, m)) == dayNumber(y, m, 1)
  trigger monthStart(y, m)
// the calendar: days of a month are numbered from its first
axiom monthBegins(n int)
  ensures 1 <= dayAt(n) && 1 <= monthAt(n) && monthAt(n) <= 12
  ensures dayNumber(yearAt(n), monthAt(n), 1) == n - (dayAt(n) - 1)
  trigger dayAt(n)
// midnights of the same day are the same value (times are built by package time in UTC, without a clock reading)
axiom utcDays(t time.Time, u time.Time)
  requires midnight(t) && midnight(u) && civil(t) == civil(u)
  ensures t == u
  trigger isUTC(t), isUTC(u)

spec monthOf(t time.Time) time.Time = monthStart(yearAt(civil(t)), monthAt(civil(t)))

func normaliseToMonth(date time.Time) (r time.Time)
  props C14
  flag noalloc
  requires midnight(date)
  modifies nothing
  ensures month: r == monthOf(date)

// the roots of a month stand alone
spec monthOK(m BudgetMonth) bool =
  m.EnvelopeRoot != nil && m.ExpenseRoot != nil && m.Income != nil &&
  m.EnvelopeRoot.Parent == nil && m.ExpenseRoot.Parent == nil && m.Income.Parent == nil &&
  m.EnvelopeRoot != m.ExpenseRoot && m.EnvelopeRoot != m.Income && m.ExpenseRoot != m.Income &&
  allocd(m.EnvelopeRoot) && allocd(m.ExpenseRoot) && allocd(m.Income)
spec apartMonths(m BudgetMonth, n BudgetMonth) bool =
  m.EnvelopeRoot != n.EnvelopeRoot && m.EnvelopeRoot != n.ExpenseRoot && m.EnvelopeRoot != n.Income &&
  m.ExpenseRoot != n.EnvelopeRoot && m.ExpenseRoot != n.ExpenseRoot && m.ExpenseRoot != n.Income &&
  m.Income != n.EnvelopeRoot && m.Income != n.ExpenseRoot && m.Income != n.Income
spec budgetOK(b *Budget) bool = b.Months != nil &&
  (forall m time.Time {b.Months[m]} :: has(b.Months, m) ==> monthOK(b.Months[m])) &&
  (forall m time.Time, n time.Time {b.Months[m], b.Months[n]} :: has(b.Months, m) && has(b.Months, n) && m != n ==> apartMonths(b.Months[m], b.Months[n]))

func newBudgetMonth() (r BudgetMonth)
  props C14
  flag helper
  reveal spelled
  requires tree()
  modifies nothing
  ensures tree: tree()
  ensures roots: monthOK(r) && fresh(r.EnvelopeRoot) && fresh(r.ExpenseRoot) && fresh(r.Income)
  ensures empty: forall x *Account, k string {has(x.Children, k)} :: fresh(x) ==> !has(x.Children, k)
  ensures zero: forall x *Account {x.Amount.Quantity} :: fresh(x) ==> x.Amount.Quantity == 0
  ensures named: r.EnvelopeRoot.Name == BudgetRootID && r.ExpenseRoot.Name == "Spending" && r.Income.Name == "Funds"

// what stays as it is when posting p is recorded
spec otherMonthsKept(b *Budget, d time.Time) bool =
  (forall m time.Time {has(b.Months, m)} {b.Months[m]} :: m != d ==> has(b.Months, m) == old(has(b.Months, m)) && (has(b.Months, m) ==> b.Months[m] == old(b.Months[m])))

func (b *Budget) addIncomePosting(p *Posting) (err error)
  props C14
  flag helper
  requires b != nil && budgetOK(b) && tree()
  requires p != nil && p.Amount != nil && whole(p.Amount) && p.Transaction != nil && midnight(p.Transaction.Date)
  modifies out
  modifies entries(b.Months)
  modifies Account.Postings[*]
  modifies Account.Amount.Quantity[*]
  modifies Account.Amount.Commodity[*]
  ensures tree: tree()
  ensures months: budgetOK(b)
  ensures others: otherMonthsKept(b, monthOf(p.Transaction.Date))
  ensures there: err == nil ==> has(b.Months, monthOf(p.Transaction.Date))
  ensures same: old(has(b.Months, monthOf(p.Transaction.Date))) ==> b.Months[monthOf(p.Transaction.Date)] == old(b.Months[monthOf(p.Transaction.Date)])
  ensures funds: err == nil ==> (forall x *Account {x.Amount.Quantity} :: x.Amount.Quantity == (fresh(x) ? 0 : old(x.Amount.Quantity)) -
     (x == b.Months[monthOf(p.Transaction.Date)].Income || x == b.Months[monthOf(p.Transaction.Date)].EnvelopeRoot ? p.Amount.Quantity : 0))

// the names of the category posting p belongs to
spec category(p *Posting, pt int) []string = pt == 1 ? split(p.AccountPath, ":")[1:] : split(p.AccountPath, ":")

// the record of what was given to the budget, and as what
ghost budgeted []*Posting
ghost budgetedAs []int

func (b *Budget) AddPosting(p *Posting, pt PostingType) (err error)
  props C14
  reveal spelled
  requires b != nil && budgetOK(b) && tree() && 0 <= pt && pt <= 2
  requires p != nil && p.Amount != nil && whole(p.Amount) && p.Transaction != nil && midnight(p.Transaction.Date)
  requires pt != 2 ==> p.Account == nil
  hide tree spelled in activity allocated funds pool found spent
  hide earlier tree in tree
  trace budgeted: budgeted ++ [p]
  trace budgetedAs: budgetedAs ++ [pt]
  modifies out
  modifies p.Account
  modifies entries(b.Months)
  modifies mapclass(b.Months[monthOf(p.Transaction.Date)].EnvelopeRoot.Children)
  modifies Account.Postings[*]
  modifies Account.Path[*]
  modifies Account.PathComponents[*]
  modifies Account.Amount.Quantity[*]
  modifies Account.Amount.Commodity[*]
  local (a *Account) WalkAncestors(action any) (err error)
    flag norepo
    requires nonnil: a != nil
    requires up: (forall y *Account {y.Parent} :: upOK(y))
    requires pp: p != nil
    requires pa: p.Amount != nil && whole(p.Amount)
    decreases id(a)
    modifies Account.Amount.Quantity[*] where x: anc(x, a)
    modifies out
    use forall x *Account {anc(x, a.Parent)} :: ancOlder(x, a.Parent)
    ensures rolled: err == nil ==> (forall x *Account {x.Amount.Quantity} :: x.Amount.Quantity == old(x.Amount.Quantity) + (anc(x, a) ? (pt == 1 ? 0 - p.Amount.Quantity : p.Amount.Quantity) : 0))
  end
  ensures tree: tree()
  ensures months: budgetOK(b)
  ensures others: otherMonthsKept(b, monthOf(p.Transaction.Date))
  ensures there: err == nil ==> has(b.Months, monthOf(p.Transaction.Date))
  ensures same: old(has(b.Months, monthOf(p.Transaction.Date))) ==> b.Months[monthOf(p.Transaction.Date)] == old(b.Months[monthOf(p.Transaction.Date)])
  ensures kept: forall x *Account, k string {x.Children[k]} :: old(alloc(x)) && old(has(x.Children, k)) ==> has(x.Children, k) && x.Children[k] == old(x.Children[k])
  ensures funds: err == nil && pt == 2 ==> (forall x *Account {x.Amount.Quantity} :: x.Amount.Quantity == (fresh(x) ? 0 : old(x.Amount.Quantity)) -
     (x == b.Months[monthOf(p.Transaction.Date)].Income || x == b.Months[monthOf(p.Transaction.Date)].EnvelopeRoot ? p.Amount.Quantity : 0))
  ensures pool: err == nil && pt == 0 && p.AccountPath == BudgetRootID ==> (forall x *Account {x.Amount.Quantity} :: x.Amount.Quantity == (fresh(x) ? 0 : old(x.Amount.Quantity)) +
     (x == b.Months[monthOf(p.Transaction.Date)].EnvelopeRoot ? p.Amount.Quantity : 0))
  ensures found: pt == 0 && p.AccountPath != BudgetRootID ==> walk(b.Months[monthOf(p.Transaction.Date)].EnvelopeRoot, category(p, pt)) != nil
  ensures spent: pt == 1 ==> walk(b.Months[monthOf(p.Transaction.Date)].ExpenseRoot, category(p, pt)) != nil
  ensures allocated: err == nil && pt == 0 && p.AccountPath != BudgetRootID ==> (forall x *Account {x.Amount.Quantity} :: x.Amount.Quantity == (fresh(x) ? 0 : old(x.Amount.Quantity)) +
     (anc(x, walk(b.Months[monthOf(p.Transaction.Date)].EnvelopeRoot, category(p, pt))) ? p.Amount.Quantity : 0))
  ensures activity: err == nil && pt == 1 ==> (forall x *Account {x.Amount.Quantity} :: x.Amount.Quantity == (fresh(x) ? 0 : old(x.Amount.Quantity)) -
     (anc(x, walk(b.Months[monthOf(p.Transaction.Date)].ExpenseRoot, category(p, pt))) ? p.Amount.Quantity : 0))
