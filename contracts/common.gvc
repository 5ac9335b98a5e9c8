package cmd

// ---- selection

spec validFilters() bool = forall i int {filters[i]} :: 0 <= i && i < len(filters) ==> filters[i].regex != nil
spec validPostings(ps []*journal.Posting) bool = forall i int {ps[i]} :: 0 <= i && i < len(ps) ==> ps[i] != nil && allocd(ps[i]) && ps[i].Amount != nil && allocd(ps[i].Amount)

// the day is within the range the options give
spec dateOptionsOK() bool = current || (len(beginDate) == 0 || smartOK(beginDate)) && (len(endDate) == 0 || smartOK(endDate))
spec inRange(day int) bool = (len(beginDate) == 0 || smartDay(beginDate) <= day) && (len(endDate) == 0 || day < smartDay(endDate))

// the first n filters
spec wholeMatch(t journal.Transaction, n int) bool = n <= 0 ? false : matchesPayee(filters[n - 1], t) || matchesNote(filters[n - 1], t) || wholeMatch(t, n - 1)
spec postingMatch(p *journal.Posting, n int) bool = n <= 0 ? false : matchesPosting(filters[n - 1], p) || postingMatch(p, n - 1)
spec transactionMatch(t journal.Transaction, n int) bool = n <= 0 ? false : matchesPayee(filters[n - 1], t) || matchesNote(filters[n - 1], t) || anyPosting(filters[n - 1], t.Postings, len(t.Postings)) || transactionMatch(t, n - 1)

func calendarDate(t time.Time) (r time.Time)
  props C08
  flag helper never:journal.Account
  modifies nothing
  ensures midnight(r) && civil(r) == civil(t)

func withinDateRange(t *journal.Transaction) (r bool, err error)
  props C08
  flag never:journal.Account
  lend C05 C14 C09 C14 C15 C16 C20 C22
  requires t != nil && midnight(t.Date)
  modifies now
  ensures refused: (err == nil) == dateOptionsOK()
  ensures range: !current && err == nil ==> r == inRange(civil(t.Date))
  ensures today: current ==> r == (civil(t.Date) <= civil(now))

lemma wholeMatchAt(t journal.Transaction, i int, n int)
  requires 0 <= i && i < n && (matchesPayee(filters[i], t) || matchesNote(filters[i], t))
  ensures wholeMatch(t, n)
  decreases n
  ih wholeMatchAt(t, i, n - 1) when i < n - 1
  trigger wholeMatch(t, n), filters[i]

// the first n postings are made to this account
spec postedTo(ps []*journal.Posting, s string, n int) bool = n <= 0 ? false : ps[n - 1].AccountPath == s || postedTo(ps, s, n - 1)
// one of the first n postings is selected by a filter
spec somePosting(ps []*journal.Posting, n int) bool = n <= 0 ? false : postingMatch(ps[n - 1], len(filters)) || somePosting(ps, n - 1)
spec inDateRange(t journal.Transaction) bool = current ? civil(t.Date) <= civil(now) : inRange(civil(t.Date))
opaque selectedWhole(t journal.Transaction) bool = len(filters) == 0 || wholeMatch(t, len(filters))
spec selected(t journal.Transaction) bool = inDateRange(t) && (selectedWhole(t) || somePosting(t.Postings, len(t.Postings)))
// one of the first n postings, selected, is made to this account
spec selectedAccount(ps []*journal.Posting, whole bool, s string, n int) bool =
  n <= 0 ? false : (whole || postingMatch(ps[n - 1], len(filters))) && ps[n - 1].AccountPath == s || selectedAccount(ps, whole, s, n - 1)

lemma somePostingAt(ps []*journal.Posting, p *journal.Posting, n int)
  requires holds(ps, p, n) && postingMatch(p, len(filters))
  ensures somePosting(ps, n)
  decreases n
  ih somePostingAt(ps, p, n - 1) when ps[n - 1] != p
  trigger somePosting(ps, n), holds(ps, p, n)
spec somePostingWhere(ps []*journal.Posting, n int) int = n <= 0 ? -1 : (postingMatch(ps[n - 1], len(filters)) ? n - 1 : somePostingWhere(ps, n - 1))
lemma somePostingIs(ps []*journal.Posting, n int)
  requires somePosting(ps, n) && n <= len(ps)
  ensures 0 <= somePostingWhere(ps, n) && somePostingWhere(ps, n) < n && postingMatch(ps[somePostingWhere(ps, n)], len(filters)) && holds(ps, ps[somePostingWhere(ps, n)], n)
  decreases n
  ih somePostingIs(ps, n - 1) when !postingMatch(ps[n - 1], len(filters))
  trigger somePosting(ps, n)

spec accountWhere(ps []*journal.Posting, s string, n int) int = n <= 0 ? -1 : (ps[n - 1].AccountPath == s ? n - 1 : accountWhere(ps, s, n - 1))
lemma postedToIs(ps []*journal.Posting, s string, n int)
  requires postedTo(ps, s, n) && n <= len(ps)
  ensures 0 <= accountWhere(ps, s, n) && accountWhere(ps, s, n) < n && ps[accountWhere(ps, s, n)].AccountPath == s && holds(ps, ps[accountWhere(ps, s, n)], n)
  decreases n
  ih postedToIs(ps, s, n - 1) when ps[n - 1].AccountPath != s
  trigger postedTo(ps, s, n)
lemma postedToAt(ps []*journal.Posting, p *journal.Posting, s string, n int)
  requires holds(ps, p, n) && p.AccountPath == s
  ensures postedTo(ps, s, n)
  decreases n
  ih postedToAt(ps, p, s, n - 1) when ps[n - 1] != p
  trigger holds(ps, p, n), postedTo(ps, s, n)
spec selectedWhere(ps []*journal.Posting, s string, n int) int = n <= 0 ? -1 : (postingMatch(ps[n - 1], len(filters)) && ps[n - 1].AccountPath == s ? n - 1 : selectedWhere(ps, s, n - 1))
lemma selectedIs(ps []*journal.Posting, s string, n int)
  requires selectedAccount(ps, false, s, n) && n <= len(ps)
  ensures 0 <= selectedWhere(ps, s, n) && selectedWhere(ps, s, n) < n && ps[selectedWhere(ps, s, n)].AccountPath == s && postingMatch(ps[selectedWhere(ps, s, n)], len(filters)) && holds(ps, ps[selectedWhere(ps, s, n)], n)
  decreases n
  ih selectedIs(ps, s, n - 1) when !(postingMatch(ps[n - 1], len(filters)) && ps[n - 1].AccountPath == s)
  trigger selectedAccount(ps, false, s, n)
lemma selectedAt(ps []*journal.Posting, p *journal.Posting, s string, n int)
  requires holds(ps, p, n) && postingMatch(p, len(filters)) && p.AccountPath == s
  ensures selectedAccount(ps, false, s, n)
  decreases n
  ih selectedAt(ps, p, s, n - 1) when ps[n - 1] != p
  trigger holds(ps, p, n), selectedAccount(ps, false, s, n)
lemma selectedAll(ps []*journal.Posting, s string, n int)
  ensures selectedAccount(ps, true, s, n) == postedTo(ps, s, n)
  decreases n
  ih selectedAll(ps, s, n - 1) when n > 0
  trigger selectedAccount(ps, true, s, n)

func checkAgainstFilters(t *journal.Transaction) (whole bool, ps []*journal.Posting, err error)
  props C08 C09
  flag never:journal.Account
  requires t != nil && midnight(t.Date) && validFilters() && validPostings(t.Postings)
  modifies now
  inv <i int> : !wholeMatch(*t, i)
  inv <i int, m map[*journal.Posting]bool> : forall any p *journal.Posting {has(m, p)} {holds(t.Postings, p, len(t.Postings))} :: has(m, p) == (holds(t.Postings, p, len(t.Postings)) && postingMatch(p, i))
  inv <i int, j int, m map[*journal.Posting]bool, mp []*journal.Posting> : forall any p *journal.Posting {has(m, p)} :: has(m, p) == (holds(t.Postings, p, len(t.Postings)) && postingMatch(p, i) || holds(mp, p, j))
  inv <seen set[*journal.Posting], out []*journal.Posting> : forall any p *journal.Posting {seen[p]} {holds(out, p, len(out))} :: holds(out, p, len(out)) == seen[p]
  inv <out []*journal.Posting> : distinctPostings(out)
  ensures [C05,C08,C09,C14,C15,C16,C22] refused: (err == nil) == dateOptionsOK()
  ensures [C08] range: err == nil && !current && !inRange(civil(t.Date)) ==> !whole && len(ps) == 0
  ensures [C08] today: err == nil && current && civil(t.Date) > civil(now) ==> !whole && len(ps) == 0
  ensures [C05,C09,C14] nofilter: err == nil && (current ? civil(t.Date) <= civil(now) : inRange(civil(t.Date))) && len(filters) == 0 ==> whole && ps == t.Postings
  ensures [C05,C09,C14] whole: err == nil && (current ? civil(t.Date) <= civil(now) : inRange(civil(t.Date))) && len(filters) > 0 ==> whole == wholeMatch(*t, len(filters))
  ensures [C05,C09,C14] all: err == nil && whole ==> ps == t.Postings
  ensures [C05,C09,C14] some: err == nil && !whole && (current ? civil(t.Date) <= civil(now) : inRange(civil(t.Date))) ==> (forall any p *journal.Posting {holds(ps, p, len(ps))} :: holds(ps, p, len(ps)) == (holds(t.Postings, p, len(t.Postings)) && postingMatch(p, len(filters))))
  ensures [C05,C09,C14] once: err == nil && !whole ==> distinctPostings(ps)
  ensures [C05,C14] wholly: err == nil && inDateRange(*t) ==> whole == selectedWhole(*t)
  ensures [C16,C22,C05,C14] chosen: err == nil ==> (whole || len(ps) > 0) == selected(*t)
  ensures [C05,C12,C14,C22] valid: err == nil ==> validPostings(ps)
  ensures [C22] accounts: err == nil ==> (forall s string {postedTo(ps, s, len(ps))} {selectedAccount(t.Postings, selectedWhole(*t), s, len(t.Postings))} :: postedTo(ps, s, len(ps)) == (inDateRange(*t) && selectedAccount(t.Postings, selectedWhole(*t), s, len(t.Postings))))

// ---- handing over: what was passed to a transaction handler, and what it answered last
ghost handed []*journal.Transaction
ghost handedPath []string
ghost answer error
funcval transactionHandler(t *journal.Transaction, path string) (err error)
  modifies handed
  modifies handedPath
  modifies answer
  ensures handed == old(handed) ++ [t] && handedPath == old(handedPath) ++ [path] && err == answer

func dateCheckedTransactionHandler$1(t *journal.Transaction, path string) (err error)
  props C08
  flag helper
  requires t != nil && midnight(t.Date)
  requires handler != nil
  modifies now
  modifies handed
  modifies handedPath
  modifies answer
  ensures refused: !dateOptionsOK() ==> err != nil && handed == old(handed)
  ensures selected: dateOptionsOK() && (current ? civil(t.Date) <= civil(now) : inRange(civil(t.Date))) ==> handed == old(handed) ++ [t] && handedPath == old(handedPath) ++ [path] && err == answer
  ensures left: dateOptionsOK() && !(current ? civil(t.Date) <= civil(now) : inRange(civil(t.Date))) ==> handed == old(handed) && err == nil
