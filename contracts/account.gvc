package journal

extern strings.Split(s string, sep string) (r []string)
  flag pure
  fresh r
  ensures r == split(s, sep)
  ensures len(r) >= 1
  ensures len(sep) == 1 ==> len(r) == pieces(s, sep[0], 0)
  ensures len(sep) == 1 ==> len(r[0]) == nextByte(s, sep[0], 0)

uf split(s string, sep string) []string

spec rootName(n string) bool = n == RootID || n == BudgetRootID

// the path of a, as far as it prefixes the paths of its children
spec basePath(a *Account) string = a.Parent == nil ? a.Name : a.Path
spec above(p *Account) string = (p == nil || rootName(p.Name)) ? "" : basePath(p) ++ ":"
spec aboveComponents(p *Account) []string = rootName(p.Name) ? []string : p.PathComponents

// children know their parent and are listed under their name; parents are older than children
spec downOK(a *Account) bool = a.Children != nil &&
  (forall k string {a.Children[k]} {has(a.Children, k)} :: has(a.Children, k) ==>
     allocd(a.Children[k]) && a.Children[k] != nil && a.Children[k].Parent == a && a.Children[k].Name == k && id(a) < id(a.Children[k]) && id(a.Children) < id(a.Children[k]))
spec upOK(a *Account) bool = a.Parent != nil ==> id(a.Parent) < id(a) && allocd(a.Parent)
spec listed(a *Account) bool = a.Parent != nil ==> has(a.Parent.Children, a.Name) && a.Parent.Children[a.Name] == a
// path and path components spell the position (the components of accounts whose path is empty,
// and of their children, are not looked at: the budget sets them anew)
spec plain(a *Account) bool = a.Path != "" && (rootName(a.Parent.Name) || a.Parent.Parent != nil && a.Parent.Path != "")
sealed spelled(a *Account) bool = a.Parent != nil ==>
  a.Path == above(a.Parent) ++ a.Name && (plain(a) ==> a.PathComponents == aboveComponents(a.Parent) ++ [a.Name])

// no two accounts share a table of children
spec apart() bool = forall a *Account, b *Account {a.Children, b.Children} :: a != b ==> a.Children != b.Children
spec forest() bool = apart() && (forall a *Account {a.Children} :: downOK(a)) && (forall a *Account {a.Parent} :: upOK(a))
spec tree() bool = forest() && (forall a *Account {a.Parent} {a.Path} {a.PathComponents} {spelled(a)} :: listed(a) && spelled(a))

// the account reached from a by following names, nil if there is none
spec walk(a *Account, cs []string) *Account = len(cs) == 0 ? a : (a != nil && has(a.Children, cs[0]) ? walk(a.Children[cs[0]], cs[1:]) : nil)

func NewAccount(name string) (r *Account)
  props C05 C06 C14
  inline
  modifies nothing
  ensures fresh(r) && r.Children != nil && fresh(r.Children)
  ensures r.Name == name && r.Path == "" && r.Parent == nil && r.PathComponents == []string
  ensures empty: forall k string {has(r.Children, k)} :: !has(r.Children, k)
  ensures zero: r.Amount.Quantity == 0 && r.Amount.Commodity == ""
  ensures len(r.Postings) == 0 && len(r.Transactions) == 0
  ensures id(r) < id(r.Children)

func (a *Account) CreatePath() (r string)
  props C06
  reveal spelled
  lend C05 C14
  flag noalloc
  requires a != nil
  requires forall x *Account {x.Parent} :: upOK(x)
  requires forall x *Account {x.Parent} {x.Path} :: x == a || spelled(x)
  modifies nothing
  inv <cur *Account> : cur != nil && allocd(cur) && id(cur) <= id(a)
  inv <cur *Account, p string> : above(cur.Parent) ++ p == above(a.Parent) ++ a.Name
  measure <cur *Account> : id(cur)
  ensures spells: r == above(a.Parent) ++ a.Name

func (a *Account) Head() (r *Account)
  flag noalloc
  requires a != nil
  requires forall x *Account {x.Parent} :: upOK(x)
  modifies nothing
  inv <cur *Account> : cur != nil && allocd(cur) && id(cur) <= id(a)
  measure <cur *Account> : id(cur)
  ensures r != nil

func newAccountWithChildren(parent *Account, components []string) (r *Account)
  props C06
  reveal spelled
  lend C05 C14
  requires parent != nil && tree()
  requires len(components) > 0 ==> !has(parent.Children, components[0])
  decreases len(components)
  modifies entries(parent.Children)
  ensures tree: tree()
  ensures found: r != nil && walk(parent, components) == r
  ensures kept: forall k string {has(parent.Children, k)} :: old(has(parent.Children, k)) ==> has(parent.Children, k) && parent.Children[k] == old(parent.Children[k])
  ensures added: forall k string {has(parent.Children, k)} :: has(parent.Children, k) ==> old(has(parent.Children, k)) || len(components) > 0 && k == components[0]
  ensures new: len(components) > 0 ==> fresh(r)
  ensures onlynew: forall k string {has(parent.Children, k)} :: has(parent.Children, k) && !old(has(parent.Children, k)) ==> fresh(parent.Children[k])
  ensures [C05,C14] zero: forall x *Account {x.Amount.Quantity} :: fresh(x) ==> x.Amount.Quantity == 0

func (a *Account) findChild(components []string) (r *Account, rest []string)
  props C06
  lend C05 C14
  requires a != nil && forest()
  decreases len(components)
  modifies nothing
  flag noalloc
  ensures found: rest == nil ==> r != nil && walk(a, components) == r
  ensures partial: rest != nil ==> r != nil && len(rest) > 0 && !has(r.Children, rest[0]) && reaches(a, components, r, rest) && walk(a, components) == nil

// following the names of cs from a leads to r with the names rest left over
spec reaches(a *Account, cs []string, r *Account, rest []string) bool = len(cs) <= len(rest) ? a == r && cs == rest : a != nil && has(a.Children, cs[0]) && reaches(a.Children[cs[0]], cs[1:], r, rest)

lemma continueWalk(a *Account, cs []string, r *Account, rest []string)
  requires old(reaches(a, cs, r, rest)) && r != nil
  requires forall x *Account, k string {x.Children[k]} :: old(alloc(x)) && old(has(x.Children, k)) ==> x.Children == old(x.Children) && has(x.Children, k) && x.Children[k] == old(x.Children[k]) && old(allocd(x.Children[k])) && allocd(x.Children[k])
  requires old(allocd(a)) && allocd(a)
  ensures walk(a, cs) == walk(r, rest)
  decreases len(cs)
  ih continueWalk(old(a.Children[cs[0]]), cs[1:], r, rest) when len(cs) > len(rest)

lemma walkKept(a *Account, cs []string)
  requires forall any x *Account, k string {x.Children[k]} :: old(allocd(x)) && old(has(x.Children, k)) ==> x.Children == old(x.Children) && has(x.Children, k) && x.Children[k] == old(x.Children[k])
  requires old(forall x *Account {x.Children} :: downOK(x))
  requires old(allocd(a)) && old(walk(a, cs)) != nil
  ensures walk(a, cs) == old(walk(a, cs))
  decreases len(cs)
  ih walkKept(old(a.Children[cs[0]]), cs[1:]) when len(cs) > 0

func (a *Account) FindOrCreateAccount(components []string) (r *Account)
  props C06
  lend C05 C14
  lend C05 C14
  requires a != nil && tree()
  modifies mapclass(a.Children)
  use forall q *Account, rest []string {old(reaches(a, components, q, rest))} :: continueWalk(a, components, q, rest)
  ensures tree: tree()
  ensures found: r != nil && walk(a, components) == r
  ensures kept: forall x *Account, k string {x.Children[k]} :: old(alloc(x)) && old(has(x.Children, k)) ==> has(x.Children, k) && x.Children[k] == old(x.Children[k])
  ensures onlynew: forall x *Account, k string {x.Children[k]} {has(x.Children, k)} :: old(alloc(x)) && has(x.Children, k) && !old(has(x.Children, k)) ==> fresh(x.Children[k])
  ensures new: old(walk(a, components)) == nil ==> fresh(r)
  ensures same: old(walk(a, components)) != nil ==> r == old(walk(a, components))
  ensures [C05,C14] zero: forall x *Account {x.Amount.Quantity} :: fresh(x) ==> x.Amount.Quantity == 0
  use forall any x *Account, cs []string {walk(x, cs)} :: walkKept(x, cs)
  ensures [C14] walks: forall any x *Account, cs []string {walk(x, cs)} :: old(allocd(x)) && old(walk(x, cs)) != nil ==> walk(x, cs) == old(walk(x, cs))
