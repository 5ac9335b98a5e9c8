package cmd

// ---- printing the balance report
uf padl(w int, s string) string

// what stands before an account's name
spec amountText(a journal.Account) string = padl(20, a.Amount.Commodity ++ money(a.Amount.Quantity)) ++ "  "

func report$1(a journal.Account) (r string)
  props C21
  flag value helper
  modifies nothing
  ensures r == amountText(a)

// a pure function is known by its values
uf amountLabel() func
axiom amountLabelText(a journal.Account)
  ensures apply(string, amountLabel(), a) == amountText(a)
  trigger apply(string, amountLabel(), a)
axiom amountLabelFlat(f func, a journal.Account)
  requires f != nil && (forall b journal.Account {apply(string, f, b)} :: apply(string, f, b) == amountText(b))
  ensures f == amountLabel()
  trigger leafLines(f, a)
axiom amountLabelTree(f func, m map[string]*journal.Account, ns []string, n int, lead string, joined bool, depth int, collapse bool)
  requires f != nil && (forall b journal.Account {apply(string, f, b)} :: apply(string, f, b) == amountText(b))
  ensures f == amountLabel()
  trigger rowsOf(f, m, ns, n, lead, joined, depth, collapse)

spec layout(a journal.Account, flat bool, collapse bool) []string = flat ? leafLines(amountLabel(), a) : topRows(amountLabel(), a, len(inOrder(dom(a.Children))), collapse)

func report(account journal.Account, flattenTree bool, shouldCollapseOnlyChildren bool)
  props C21
  requires [C23] finite() && finiteBelow(account)
  requires beneath() && below(account)
  modifies out
  modifies sortPerm
  modifies sortInv
  ensures shown: out == old(out) ++ linesAfter("", layout(account, flattenTree, shouldCollapseOnlyChildren), len(layout(account, flattenTree, shouldCollapseOnlyChildren))) ++ "\n--------------------\n" ++ padl(20, money(account.Amount.Quantity)) ++ "\n"
