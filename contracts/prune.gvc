package journal

// ---- leaving out accounts without money

funcval matchers(a journal.Account) (r bool)
  flag pure

// a or an account beneath it has an amount other than zero
spec alive(a *Account) bool = a.Amount.Quantity != 0 || !(forall k string {has(a.Children, k)} {a.Children[k]} :: has(a.Children, k) && id(a) < id(a.Children[k]) ==> !alive(a.Children[k]))

// every account beneath a is alive
spec pruned(a *Account) bool = forall k string {has(a.Children, k)} {a.Children[k]} :: has(a.Children, k) && id(a) < id(a.Children[k]) ==> alive(a.Children[k]) && pruned(a.Children[k])

// children are only removed, and only where there is no money; nothing else about accounts changes
spec onlyPruned() bool = forall any x *Account, k string {x.Children[k]} {has(x.Children, k)} :: old(allocd(x)) ==>
  x.Children == old(x.Children) && x.Amount.Quantity == old(x.Amount.Quantity) && (has(x.Children, k) ==> old(has(x.Children, k)) && x.Children[k] == old(x.Children[k])) && (old(has(x.Children, k)) && old(alive(x.Children[k])) ==> has(x.Children, k))

lemma aliveKept(a *Account)
  requires onlyPruned() && old(forall x *Account {x.Children} :: downOK(x))
  requires old(allocd(a))
  ensures alive(a) == old(alive(a))
  decreases old(allocated) - id(a)
  ih forall k string {old(a.Children[k])} :: aliveKept(old(a.Children[k])) when old(has(a.Children, k))

lemma prunedKept(a *Account)
  requires onlyPruned() && old(forall x *Account {x.Children} :: downOK(x))
  requires old(allocd(a)) && old(pruned(a))
  use forall k string {old(a.Children[k])} :: aliveKept(old(a.Children[k]))
  ensures pruned(a)
  decreases old(allocated) - id(a)
  ih forall k string {old(a.Children[k])} :: prunedKept(old(a.Children[k])) when old(has(a.Children, k))

spec linked() bool = forest() && (forall a *Account {a.Parent} :: listed(a))

// any heap is finite: object numbers stay below some bound
uf accountBound() int
spec numbered() bool = forall x *Account, k string {x.Children[k]} {has(x.Children, k)} :: has(x.Children, k) ==> id(x) < id(x.Children[k]) && id(x.Children[k]) < accountBound()

func (a *Account) Unlink()
  props C07
  flag noalloc
  requires a != nil && linked() && !alive(a)
  modifies a.Parent
  modifies entries(a.Parent.Children)
  use forall any x *Account {alive(x)} :: aliveKept(x)
  use forall any x *Account {pruned(x)} :: prunedKept(x)
  ensures linked: linked()
  ensures gone: a.Parent == nil
  ensures removed: forall x *Account, k string {has(x.Children, k)} :: has(x.Children, k) == (old(has(x.Children, k)) && x.Children[k] != a)
  ensures same: forall x *Account, k string {x.Children[k]} :: has(x.Children, k) ==> x.Children[k] == old(x.Children[k])
  ensures alive: forall any x *Account {alive(x)} :: old(allocd(x)) ==> alive(x) == old(alive(x))
  ensures pruned: forall any x *Account {pruned(x)} :: old(allocd(x)) && old(pruned(x)) ==> pruned(x)

// u is among the first n accounts of the list
spec inside(us []*Account, u *Account, n int) bool = n <= 0 ? false : us[n - 1] == u || inside(us, u, n - 1)
lemma insideMore(us []*Account, x *Account, u *Account, n int)
  requires 0 <= n && n <= len(us)
  ensures inside(us ++ [x], u, n) == inside(us, u, n)
  decreases n
  ih insideMore(us, x, u, n - 1) when n > 0
  trigger inside(us ++ [x], u, n)

// the accounts of the list are children of a without money beneath
spec emptyOnes(a *Account, us []*Account) bool = forall i int {us[i]} :: 0 <= i && i < len(us) ==> us[i] != nil && allocd(us[i]) && has(a.Children, us[i].Name) && a.Children[us[i].Name] == us[i] && !old(alive(us[i]))

spec deadOnes(a *Account, us []*Account) bool = forall i int {us[i]} :: 0 <= i && i < len(us) ==> us[i] != nil && allocd(us[i]) && (us[i].Parent == nil || us[i].Parent == a) && !old(alive(us[i]))

func (a *Account) RemoveChildren(matcher func) (r bool)
  props C07
  requires [C23] numbered()
  decreases accountBound() - id(a)
  requires a != nil && linked()
  requires matcher != nil && (forall b Account {apply(bool, matcher, b)} :: apply(bool, matcher, b) == (b.Amount.Quantity != 0))
  modifies mapclass(a.Children)
  modifies Account.Parent[*]
  use forall any x *Account {alive(x)} :: aliveKept(x)
  use forall any x *Account {pruned(x)} :: prunedKept(x)
  inv [C23] numbered()
  inv linked()
  inv onlyPruned()
  inv forall x *Account {alive(x)} :: old(allocd(x)) ==> alive(x) == old(alive(x))
  inv forall x *Account {pruned(x)} :: old(allocd(x)) && old(pruned(x)) ==> pruned(x)
  inv forall x *Account, k string {has(x.Children, k)} :: old(allocd(x)) && id(x) < id(a) ==> has(x.Children, k) == old(has(x.Children, k))
  inv <seen set[string]> : forall k string {has(a.Children, k)} :: has(a.Children, k) == old(has(a.Children, k))
  inv <seen set[string], us []*Account> : emptyOnes(a, us)
  inv <seen set[string], us []*Account> : forall k string {seen[k]} :: seen[k] ==> old(alive(a.Children[k])) || inside(us, a.Children[k], len(us))
  inv <seen set[string]> : forall k string {seen[k]} :: seen[k] ==> pruned(a.Children[k])
  inv <seen set[string], m bool> : m == (a.Amount.Quantity != 0 || !(forall k string {seen[k]} :: seen[k] ==> !old(alive(a.Children[k]))))
  inv <i int, us []*Account> : deadOnes(a, us)
  inv <i int, us []*Account> : forall k string {has(a.Children, k)} :: has(a.Children, k) ==> (old(alive(a.Children[k])) || inside(us, a.Children[k], len(us))) && !inside(us, a.Children[k], i) && pruned(a.Children[k])
  ensures [C07,C23] small: numbered()
  ensures linked: linked()
  ensures only: onlyPruned()
  ensures above: forall x *Account, k string {has(x.Children, k)} :: old(allocd(x)) && id(x) < id(a) ==> has(x.Children, k) == old(has(x.Children, k))
  ensures alive: forall any x *Account {alive(x)} :: old(allocd(x)) ==> alive(x) == old(alive(x))
  ensures pruned: forall any x *Account {pruned(x)} :: old(allocd(x)) && old(pruned(x)) ==> pruned(x)
  ensures answer: r == old(alive(a))
  ensures all: pruned(a)

// what can be reached afterwards: exactly the accounts with money, by the same path
lemma walkShown(a *Account, cs []string)
  requires onlyPruned() && old(forall x *Account {x.Children} :: downOK(x))
  requires a != nil && old(allocd(a))
  requires old(walk(a, cs)) != nil && old(alive(walk(a, cs)))
  ensures walk(a, cs) == old(walk(a, cs)) && old(alive(a))
  decreases len(cs)
  ih walkShown(old(a.Children[cs[0]]), cs[1:]) when len(cs) > 0

lemma walkNothingNew(a *Account, cs []string)
  requires onlyPruned() && old(forall x *Account {x.Children} :: downOK(x))
  requires a != nil && old(allocd(a))
  requires pruned(a) && walk(a, cs) != nil
  use aliveKept(old(a.Children[cs[0]]))
  ensures old(walk(a, cs)) == walk(a, cs) && (len(cs) > 0 && !old(alive(a)) ==> false)
  ensures len(cs) > 0 ==> old(alive(walk(a, cs)))
  decreases len(cs)
  ih walkNothingNew(a.Children[cs[0]], cs[1:]) when len(cs) > 0

func (x *Account) RemoveEmptyChildren$1(a Account) (r bool)
  props C07
  flag value helper
  modifies nothing
  ensures r == (a.Amount.Quantity != 0)

func (a *Account) RemoveEmptyChildren()
  props C07
  requires [C23] numbered()
  requires a != nil && linked()
  modifies mapclass(a.Children)
  modifies Account.Parent[*]
  use forall any cs []string {walk(a, cs)} :: walkShown(a, cs)
  use forall any cs []string {walk(a, cs)} :: walkNothingNew(a, cs)
  ensures linked: linked()
  ensures only: onlyPruned()
  ensures all: pruned(a)
  ensures shown: forall any cs []string {walk(a, cs)} :: len(cs) > 0 ==> (walk(a, cs) != nil) == old(walk(a, cs) != nil && alive(walk(a, cs))) && (walk(a, cs) != nil ==> walk(a, cs) == old(walk(a, cs)))
