package reporting

// ---- the layouts of the balance report

funcval labels(a journal.Account) (r string)
  flag pure

spec label(f func, a journal.Account) string = apply(string, f, a)

// the children of the account follow it
// all accounts are like that (locals of the program that hold copies of accounts included)
spec beneath() bool = forall x *journal.Account {x.Children} :: below(*x)
spec below(a journal.Account) bool = a.Children != nil && (forall k string {a.Children[k]} {has(a.Children, k)} :: has(a.Children, k) ==> allocd(a.Children[k]) && a.Children[k] != nil && id(a.Children) < id(a.Children[k]))

// any heap is finite: object numbers stay below some bound, and what is beneath an account is numbered after it
uf heapBound() int
spec finite() bool = forall x *journal.Account {x.Children} :: finiteBelow(*x)
spec finiteBelow(a journal.Account) bool = forall k string {a.Children[k]} {has(a.Children, k)} :: has(a.Children, k) ==> id(a.Children) < id(a.Children[k].Children) && id(a.Children[k].Children) < heapBound()

// one line after another, an empty beginning left out
spec after(cur string, line string) string = cur == "" ? line : cur ++ "\n" ++ line
spec linesAfter(cur string, ls []string, n int) string = n <= 0 ? cur : after(linesAfter(cur, ls, n - 1), ls[n - 1])

lemma linesFirst(cur string, xs []string, ys []string, n int)
  requires 0 <= n && n <= len(xs)
  ensures linesAfter(cur, xs ++ ys, n) == linesAfter(cur, xs, n)
  decreases n
  ih linesFirst(cur, xs, ys, n - 1) when n > 0

lemma linesThen(cur string, xs []string, ys []string, n int)
  requires 0 <= n && n <= len(ys)
  use linesFirst(cur, xs, ys, len(xs))
  ensures linesAfter(cur, xs ++ ys, len(xs) + n) == linesAfter(linesAfter(cur, xs, len(xs)), ys, n)
  decreases n
  ih linesThen(cur, xs, ys, n - 1) when n > 0
  trigger linesAfter(linesAfter(cur, xs, len(xs)), ys, n)

lemma linesNext(cur string, x string, ys []string, n int)
  requires 1 <= n && n <= 1 + len(ys)
  use linesThen(cur, [x], ys, n - 1)
  ensures linesAfter(cur, [x] ++ ys, n) == linesAfter(after(cur, x), ys, n - 1)
  trigger linesAfter(cur, [x] ++ ys, n)

// the accounts without children at or beneath a, in order: one line each
spec leafLines(f func, a journal.Account) []string =
  len(a.Children) == 0 ? [label(f, a) ++ a.Path] : leavesOf(f, a.Children, inOrder(dom(a.Children)), len(inOrder(dom(a.Children))))
spec leavesOf(f func, m map[string]*journal.Account, ns []string, n int) []string =
  n <= 0 ? []string : leavesOf(f, m, ns, n - 1) ++ (id(m) < id(m[ns[n - 1]]) ? leafLines(f, *m[ns[n - 1]]) : []string)

func FlattenedTree$1(a journal.Account) (r string)
  props C21
  flag value helper
  modifies nothing
  ensures r == ""

func flattenedTree(a journal.Account, prepender func, current string) (r string)
  lend C23
  props C21
  requires [C23] finite() && finiteBelow(a)
  decreases heapBound() - id(a.Children)
  requires prepender != nil && beneath() && below(a)
  modifies sortPerm
  modifies sortInv
  inv beneath()
  inv [C23] finite()
  inv <i int, cur string> : cur == linesAfter(current, leavesOf(prepender, a.Children, inOrder(dom(a.Children)), i), len(leavesOf(prepender, a.Children, inOrder(dom(a.Children)), i)))
  ensures kept: beneath()
  ensures [C21,C23] small: finite()
  ensures lines: r == linesAfter(current, leafLines(prepender, a), len(leafLines(prepender, a)))


func FlattenedTree(a journal.Account, prepender func) (r string)
  props C21
  requires [C23] finite() && finiteBelow(a)
  requires beneath() && below(a)
  modifies sortPerm
  modifies sortInv
  ensures lines: prepender != nil ==> r == linesAfter("", leafLines(prepender, a), len(leafLines(prepender, a)))

// ---- the tree
spec indent(n int) string = n <= 0 ? "" : " " ++ indent(n - 1)

// the rows of a and of what is beneath it: lead goes before the name of a, the children are indented by depth levels
spec rows(f func, a journal.Account, lead string, depth int, collapse bool) []string =
  collapse && len(a.Children) == 1
    ? rowsOf(f, a.Children, inOrder(dom(a.Children)), len(inOrder(dom(a.Children))), lead ++ a.Name ++ ":", true, depth, collapse)
    : [label(f, a) ++ lead ++ a.Name] ++ rowsOf(f, a.Children, inOrder(dom(a.Children)), len(inOrder(dom(a.Children))), lead ++ a.Name ++ ":", false, depth, collapse)
// the rows of the first n of the accounts; the one child of a collapsed account continues its line
spec rowsOf(f func, m map[string]*journal.Account, ns []string, n int, lead string, joined bool, depth int, collapse bool) []string =
  n <= 0 ? []string : rowsOf(f, m, ns, n - 1, lead, joined, depth, collapse) ++
    (id(m) < id(m[ns[n - 1]]) ? rows(f, *m[ns[n - 1]], (joined && n == 1 ? lead : indent(2 * depth)), (joined && n == 1 ? depth : depth + 1), collapse) : []string)

func tree$1(depth int) (r string)
  props C21
  flag helper never:journal.Account
  requires depth >= 0
  modifies nothing
  inv <i int, s string> : s == indent(i)
  inv <i int> : i <= 2 * depth
  measure <i int> : 2 * depth - i
  ensures r == indent(2 * depth)

spec joining(c treeContext) bool = c.collapsedAccountsDepth == 0 && c.depth >= 0 && (c.isOnlyChild ? c.shouldCollapseOnlyChildren : c.collapsedAccounts == "")
spec joined(a journal.Account, c treeContext) bool = c.shouldCollapseOnlyChildren && len(a.Children) == 1
// what stands before the name of a, what stands at its end, and the level of its children
spec leadOf(c treeContext) string = c.isOnlyChild ? c.collapsedAccounts ++ ":" : indent(2 * c.depth)
spec levelOf(c treeContext) int = c.isOnlyChild ? c.depth : c.depth + 1
spec rowsAt(a journal.Account, c treeContext) []string = rows(c.prepender, a, leadOf(c), levelOf(c), c.shouldCollapseOnlyChildren)
spec startOf(a journal.Account, c treeContext) string = joined(a, c) ? c.tree : after(c.tree, label(c.prepender, a) ++ leadOf(c) ++ a.Name)
spec soFar(a journal.Account, c treeContext, i int) []string =
  rowsOf(c.prepender, a.Children, inOrder(dom(a.Children)), i, leadOf(c) ++ a.Name ++ ":", joined(a, c), levelOf(c), c.shouldCollapseOnlyChildren)

func tree(a journal.Account, c treeContext) (r treeContext)
  props C21
  flag unmeasured
  requires beneath() && below(a)
  requires c.prepender != nil && joining(c)
  modifies sortPerm
  modifies sortInv
  inv beneath()
  inv <d treeContext> : d.prepender == c.prepender && d.shouldCollapseOnlyChildren == c.shouldCollapseOnlyChildren && d.collapsedAccountsDepth == 0
  inv <d treeContext> : d.depth == levelOf(c)
  inv <d treeContext, i int> : d.isOnlyChild == (joined(a, c) && i == 0) && d.collapsedAccounts == (joined(a, c) && i == 0 ? leadOf(c) ++ a.Name : "")
  inv <d treeContext, i int> : d.tree == linesAfter(startOf(a, c), soFar(a, c, i), len(soFar(a, c, i)))
  ensures kept: beneath()
  ensures same: r.prepender == c.prepender && r.shouldCollapseOnlyChildren == c.shouldCollapseOnlyChildren && r.depth == c.depth
  ensures ready: r.collapsedAccountsDepth == 0 && !r.isOnlyChild && r.collapsedAccounts == ""
  ensures lines: r.tree == linesAfter(c.tree, rowsAt(a, c), len(rowsAt(a, c)))

spec topRows(f func, a journal.Account, n int, collapse bool) []string = rowsOf(f, a.Children, inOrder(dom(a.Children)), n, "", false, 0, collapse)

func Tree$1(a journal.Account) (r string)
  props C21
  flag value helper
  modifies nothing
  ensures r == ""

func Tree(a journal.Account, prepender func, shouldCollapseOnlyChildren bool) (r string)
  props C21
  requires beneath() && below(a)
  modifies sortPerm
  modifies sortInv
  inv beneath()
  inv <d treeContext> : d.shouldCollapseOnlyChildren == shouldCollapseOnlyChildren && d.depth == 0 && !d.isOnlyChild && d.collapsedAccounts == "" && d.collapsedAccountsDepth == 0
  inv <d treeContext> : d.prepender != nil && (prepender != nil ==> d.prepender == prepender)
  inv <d treeContext, i int> : prepender != nil ==> d.tree == linesAfter("", topRows(prepender, a, i, shouldCollapseOnlyChildren), len(topRows(prepender, a, i, shouldCollapseOnlyChildren)))
  ensures lines: prepender != nil ==> r == linesAfter("", topRows(prepender, a, len(inOrder(dom(a.Children))), shouldCollapseOnlyChildren), len(topRows(prepender, a, len(inOrder(dom(a.Children))), shouldCollapseOnlyChildren)))
