package journal

// ---- recording postings

// x is a or one of its ancestors
spec anc(x *Account, a *Account) bool = a == nil ? false : (x == a || anc(x, a.Parent))

// an ancestor is no younger than the account
lemma ancOlder(x *Account, a *Account)
  requires forall y *Account {y.Parent} :: upOK(y)
  requires anc(x, a) && allocd(a)
  ensures id(x) <= id(a) && allocd(x)
  decreases id(a)
  ih ancOlder(x, a.Parent) when x != a
  trigger anc(x, a)

// the account a posting is recorded in, nil if it does not exist yet
spec target(root *Account, p *Posting) *Account = p.Account != nil ? p.Account : walk(root, split(p.AccountPath, ":"))

func wireUpPosting(root *Account, transaction *Transaction, p *Posting) (err error)
  props C05
  flag helper
  requires root != nil && tree() && p != nil && p.Amount != nil && whole(p.Amount)
  modifies p.Account
  modifies mapclass(root.Children)
  modifies Account.Postings[*] where x: x == target(root, p)
  modifies Account.Transactions[*] where x: x == target(root, p)
  modifies Account.Amount.Quantity[*]
  modifies Account.Amount.Commodity[*]
  modifies out
  local (a *Account) WalkAncestors(action any) (err error)
    flag norepo
    requires nonnil: a != nil
    requires up: (forall y *Account {y.Parent} :: upOK(y))
    requires pp: p != nil
    requires pa: p.Amount != nil && whole(p.Amount)
    decreases id(a)
    modifies Account.Amount.Quantity[*] where x: anc(x, a)
    modifies Account.Amount.Commodity[*] where x: anc(x, a)
    modifies out
    use forall x *Account {anc(x, a.Parent)} :: ancOlder(x, a.Parent)
    ensures rolled: err == nil ==> (forall x *Account {x.Amount.Quantity} :: x.Amount.Quantity == old(x.Amount.Quantity) + (anc(x, a) ? p.Amount.Quantity : 0))
  end
  ensures tree: tree()
  ensures kept: forall x *Account, k string {x.Children[k]} :: old(alloc(x)) && old(has(x.Children, k)) ==> has(x.Children, k) && x.Children[k] == old(x.Children[k])
  ensures where: p.Account != nil && (old(p.Account) != nil ? p.Account == old(p.Account) : p.Account == walk(root, split(p.AccountPath, ":")))
  ensures rolled: err == nil ==> (forall x *Account {x.Amount.Quantity} :: x.Amount.Quantity == (fresh(x) ? 0 : old(x.Amount.Quantity)) + (anc(x, p.Account) ? p.Amount.Quantity : 0))

func (j *Journal) AddTransaction(t *Transaction, locationHint string)
  props C05
  flag norepo
  requires j != nil
  modifies j.transactions, j.filePaths
  ensures j.transactions == old(j.transactions) ++ [t]

// ---- what stays the same while postings are recorded

lemma ancKept(x *Account, a *Account)
  requires forall any y *Account {y.Parent} :: old(allocd(y)) ==> y.Parent == old(y.Parent)
  requires old(forall y *Account {y.Parent} :: upOK(y))
  requires old(allocd(a))
  ensures anc(x, a) == old(anc(x, a))
  decreases id(a)
  ih ancKept(x, old(a.Parent))

// what is above an ancestor is above the account
lemma ancThrough(x *Account, a *Account, b *Account)
  requires forall y *Account {y.Parent} :: upOK(y)
  requires anc(x, a) && anc(a, b) && allocd(b)
  ensures anc(x, b)
  decreases id(b)
  ih ancThrough(x, a, b.Parent) when a != b

// an account reached from another one is beneath it
lemma walkAnc(a *Account, cs []string)
  requires tree() && a != nil && allocd(a)
  requires walk(a, cs) != nil
  use ancThrough(a, a.Children[cs[0]], walk(a, cs))
  ensures anc(a, walk(a, cs)) && allocd(walk(a, cs))
  decreases len(cs)
  ih walkAnc(a.Children[cs[0]], cs[1:]) when len(cs) > 0

// the sum of the first n postings made to x or beneath it
spec total(x *Account, ps []*Posting, n int) int = n <= 0 ? 0 : total(x, ps, n - 1) + (anc(x, ps[n - 1].Account) ? ps[n - 1].Amount.Quantity : 0)

// the posting has an account and an amount of its own
spec settled(q *Posting) bool = q != nil && allocd(q) && q.Account != nil && allocd(q.Account) && q.Amount != nil && allocd(q.Amount) && whole(q.Amount)

// the first n postings have accounts and amounts of their own
spec recorded(ps []*Posting, n int) bool = n <= 0 || (recorded(ps, n - 1) && settled(ps[n - 1]))

// settled postings, their amounts and the ancestors of accounts stay as they are
spec postingKept(q *Posting) bool = old(settled(q)) ==> settled(q) && q.Account == old(q.Account) && q.Amount == old(q.Amount) && q.Amount.Quantity == old(q.Amount.Quantity)
spec postingsKept() bool =
  (forall any q *Posting {q.Account} :: postingKept(q)) &&
  (forall any y *Account {y.Parent} :: old(allocd(y)) ==> y.Parent == old(y.Parent)) &&
  old(forall y *Account {y.Parent} :: upOK(y))

lemma recordedKept(ps []*Posting, n int)
  requires old(recorded(ps, n)) && postingsKept()
  ensures recorded(ps, n)
  decreases n
  ih recordedKept(ps, n - 1) when n > 0

lemma totalKept(x *Account, ps []*Posting, n int)
  requires old(recorded(ps, n)) && postingsKept()
  use ancKept(x, old(ps[n - 1].Account))
  use old(ancOlder(x, ps[n - 1].Account))
  ensures total(x, ps, n) == old(total(x, ps, n))
  ensures !old(alloc(x)) ==> total(x, ps, n) == 0
  decreases n
  ih totalKept(x, ps, n - 1) when n > 0

func (j *Journal) AddPosting(p *Posting) (err error)
  props C05
  requires j != nil && j.Root != nil && tree() && p != nil && p.Amount != nil && whole(p.Amount)
  modifies p.Account
  modifies mapclass(j.Root.Children)
  modifies Account.Postings[*] where x: x == target(j.Root, p)
  modifies Account.Transactions[*] where x: x == target(j.Root, p)
  modifies Account.Amount.Quantity[*]
  modifies Account.Amount.Commodity[*]
  modifies out
  ensures tree: tree()
  ensures kept: forall x *Account, k string {x.Children[k]} :: old(alloc(x)) && old(has(x.Children, k)) ==> has(x.Children, k) && x.Children[k] == old(x.Children[k])
  ensures where: p.Account != nil && (old(p.Account) != nil ? p.Account == old(p.Account) : p.Account == walk(j.Root, split(p.AccountPath, ":")))
  ensures rolled: err == nil ==> (forall x *Account {x.Amount.Quantity} :: x.Amount.Quantity == (fresh(x) ? 0 : old(x.Amount.Quantity)) + (anc(x, p.Account) ? p.Amount.Quantity : 0))
  use forall any x *Account, ps []*Posting, n int {total(x, ps, n)} :: totalKept(x, ps, n)
  use forall any ps []*Posting, n int {recorded(ps, n)} :: recordedKept(ps, n)
  ensures records: forall any ps []*Posting, n int {recorded(ps, n)} :: old(recorded(ps, n)) ==> recorded(ps, n)
  ensures totals: forall any x *Account, ps []*Posting, n int {total(x, ps, n)} :: old(recorded(ps, n)) ==> total(x, ps, n) == (fresh(x) ? 0 : old(total(x, ps, n)))
  use forall any a *Account, cs []string {walk(a, cs)} :: walkKept(a, cs)
  use walkAnc(j.Root, split(p.AccountPath, ":"))
  ensures under: old(p.Account) == nil ==> anc(j.Root, p.Account)
  ensures walks: forall any a *Account, cs []string {walk(a, cs)} :: old(allocd(a)) && old(walk(a, cs)) != nil ==> walk(a, cs) == old(walk(a, cs))
