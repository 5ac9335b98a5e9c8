package cmd

// ---- the account and payee lists

spec lines(ss []string, n int) string = n <= 0 ? "" : lines(ss, n - 1) ++ ss[n - 1] ++ "\n"

// one of the first n filters (arguments) matches
spec textMatch(s string, n int) bool = n <= 0 ? false : matches(patternOf(filters[n - 1].regex), s) || textMatch(s, n - 1)
spec argMatch(args []string, s string, n int) bool = n <= 0 ? false : matches(filterPattern(args[n - 1]), s) || argMatch(args, s, n - 1)
spec argsCompile(args []string, n int) bool = n <= 0 ? true : compiles(filterPattern(args[n - 1])) && argsCompile(args, n - 1)

lemma textMatchAt(s string, i int, n int)
  requires 0 <= i && i < n && matches(patternOf(filters[i].regex), s)
  ensures textMatch(s, n)
  decreases n
  ih textMatchAt(s, i, n - 1) when i < n - 1
  trigger textMatch(s, n), filters[i]
lemma argMatchAt(args []string, s string, i int, n int)
  requires 0 <= i && i < n && matches(filterPattern(args[i]), s)
  ensures argMatch(args, s, n)
  decreases n
  ih argMatchAt(args, s, i, n - 1) when i < n - 1
  trigger argMatch(args, s, n), args[i]

func (aj *accountsJournal) transactionHandler(t *journal.Transaction, path string) (err error)
  props C20
  requires aj != nil && aj.uniqueAccounts != nil && t != nil && validPostings(t.Postings)
  modifies entries(aj.uniqueAccounts)
  inv <i int> : forall s string {has(aj.uniqueAccounts, s)} :: has(aj.uniqueAccounts, s) == (old(has(aj.uniqueAccounts, s)) || postedTo(t.Postings, s, i))
  ensures err == nil
  ensures set: forall s string {has(aj.uniqueAccounts, s)} :: has(aj.uniqueAccounts, s) == (old(has(aj.uniqueAccounts, s)) || postedTo(t.Postings, s, len(t.Postings)))

func (aj *accountsJournal) prepare() (err error)
  props C20
  requires aj != nil && aj.uniqueAccounts != nil && validFilters()
  modifies aj.accounts
  modifies sortPerm
  modifies sortInv
  inv <seen set[string], ss []string> : forall s string {seen[s]} {among(ss, s, len(ss))} :: among(ss, s, len(ss)) == seen[s]
  inv <seen set[string]> : forall s string {seen[s]} {among(aj.accounts, s, len(aj.accounts))} :: among(aj.accounts, s, len(aj.accounts)) == seen[s]
  inv <ss []string> : distinctTexts(ss)
  inv distinctTexts(aj.accounts)
  inv <i int, in []string, ss []string> : forall s string {among(ss, s, len(ss))} {among(in, s, i)} {textMatch(s, len(filters))} :: among(ss, s, len(ss)) == (among(in, s, i) && textMatch(s, len(filters)))
  inv <s string, j int> : !textMatch(s, j)
  ensures err == nil
  ensures set: forall s string {among(aj.accounts, s, len(aj.accounts))} :: among(aj.accounts, s, len(aj.accounts)) == (has(aj.uniqueAccounts, s) && (len(filters) == 0 || textMatch(s, len(filters))))
  ensures once: distinctTexts(aj.accounts)
  ensures order: ascending(aj.accounts)

func (aj *accountsJournal) report()
  props C20
  requires aj != nil
  modifies out
  inv <i int> : out == old(out) ++ lines(aj.accounts, i)
  ensures lines: out == old(out) ++ lines(aj.accounts, len(aj.accounts))

func (pj *payeesJournal) transactionHandler(t *journal.Transaction, path string) (err error)
  props C20
  requires pj != nil && pj.uniquePayees != nil && t != nil
  modifies entries(pj.uniquePayees)
  ensures err == nil
  ensures set: forall s string {has(pj.uniquePayees, s)} :: has(pj.uniquePayees, s) == (old(has(pj.uniquePayees, s)) || s == t.Payee)

func (pj *payeesJournal) report()
  props C20
  requires pj != nil
  modifies out
  inv <i int> : out == old(out) ++ lines(pj.payees, i)
  ensures lines: out == old(out) ++ lines(pj.payees, len(pj.payees))

lemma argsFailAt(args []string, i int, n int)
  requires 0 <= i && i < n && !compiles(filterPattern(args[i]))
  ensures !argsCompile(args, n)
  decreases n
  ih argsFailAt(args, i, n - 1) when i < n - 1
  trigger argsCompile(args, n), args[i]

func (pj *payeesJournal) prepare(args []string) (err error)
  props C20
  requires pj != nil && pj.uniquePayees != nil
  modifies pj.payees
  modifies sortPerm
  modifies sortInv
  inv <seen set[string], ss []string> : forall s string {seen[s]} {among(ss, s, len(ss))} :: among(ss, s, len(ss)) == seen[s]
  inv <seen set[string]> : forall s string {seen[s]} {among(pj.payees, s, len(pj.payees))} :: among(pj.payees, s, len(pj.payees)) == seen[s]
  inv <ss []string> : distinctTexts(ss)
  inv distinctTexts(pj.payees)
  inv <i int> : argsCompile(args, i)
  inv <i int, rs []*regexp.Regexp> : len(rs) == i && (forall k int {rs[k]} :: 0 <= k && k < i ==> rs[k] != nil && patternOf(rs[k]) == filterPattern(args[k]))
  inv <i int, in []string, ss []string> : forall s string {among(ss, s, len(ss))} {among(in, s, i)} {argMatch(args, s, len(args))} :: among(ss, s, len(ss)) == (among(in, s, i) && argMatch(args, s, len(args)))
  inv <s string, j int> : !argMatch(args, s, j)
  ensures refused: (err == nil) == argsCompile(args, len(args))
  ensures set: err == nil ==> (forall s string {among(pj.payees, s, len(pj.payees))} :: among(pj.payees, s, len(pj.payees)) == (has(pj.uniquePayees, s) && (len(args) == 0 || argMatch(args, s, len(args)))))
  ensures once: err == nil ==> distinctTexts(pj.payees)
  ensures order: err == nil ==> ascending(pj.payees)
