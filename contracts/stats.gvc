package cmd

// ---- statistics

func (js *statisticsJournal) transactionHandler(t *journal.Transaction, path string) (err error)
  props C22
  requires js != nil && t != nil && midnight(t.Date) && validFilters() && validPostings(t.Postings)
  requires js.uniqueAccounts != nil && js.uniquePayees != nil && js.journalFiles != nil && js.incomeBuckets != nil && js.expenseBuckets != nil
  requires js.uniqueAccounts != js.uniquePayees && js.uniqueAccounts != js.journalFiles && js.uniquePayees != js.journalFiles && js.incomeBuckets != js.expenseBuckets
  requires js.transactionCount >= 0
  modifies now
  modifies js.transactionCount
  modifies js.firstTransactionDate
  modifies js.lastTransactionDate
  modifies entries(js.uniqueAccounts)
  modifies entries(js.uniquePayees)
  modifies entries(js.journalFiles)
  modifies entries(js.incomeBuckets)
  modifies entries(js.expenseBuckets)
  inv <i int, ps []*journal.Posting> : forall s string {has(js.uniqueAccounts, s)} :: has(js.uniqueAccounts, s) == (old(has(js.uniqueAccounts, s)) || postedTo(ps, s, i))
  ensures refused: (err == nil) == dateOptionsOK()
  ensures count: err == nil ==> js.transactionCount == old(js.transactionCount) + (selected(*t) ? 1 : 0)
  ensures kept: !selected(*t) ==> js.firstTransactionDate == old(js.firstTransactionDate) && js.lastTransactionDate == old(js.lastTransactionDate)
  ensures started: err == nil && selected(*t) && old(js.transactionCount) == 0 ==> civil(js.firstTransactionDate) == civil(t.Date) && civil(js.lastTransactionDate) == civil(t.Date)
  ensures earliest: err == nil && selected(*t) && old(js.transactionCount) > 0 && old(midnight(js.firstTransactionDate)) ==> civil(js.firstTransactionDate) == min(civil(old(js.firstTransactionDate)), civil(t.Date))
  ensures latest: err == nil && selected(*t) && old(js.transactionCount) > 0 && old(midnight(js.lastTransactionDate)) ==> civil(js.lastTransactionDate) == max(civil(old(js.lastTransactionDate)), civil(t.Date))
  ensures accounts: err == nil ==> (forall s string {has(js.uniqueAccounts, s)} :: has(js.uniqueAccounts, s) == (old(has(js.uniqueAccounts, s)) || inDateRange(*t) && selectedAccount(t.Postings, selectedWhole(*t), s, len(t.Postings))))
  ensures payees: err == nil ==> (forall s string {has(js.uniquePayees, s)} :: has(js.uniquePayees, s) == (old(has(js.uniquePayees, s)) || selected(*t) && s == t.Payee))
  ensures files: err == nil ==> (forall s string {has(js.journalFiles, s)} :: has(js.journalFiles, s) == (old(has(js.journalFiles, s)) || selected(*t) && s == path))

func newStatisticsJournal() (r statisticsJournal)
  props C22
  modifies nothing
  ensures r.transactionCount == 0
  ensures r.uniqueAccounts != nil && r.uniquePayees != nil && r.journalFiles != nil && r.incomeBuckets != nil && r.expenseBuckets != nil
  ensures r.uniqueAccounts != r.uniquePayees && r.uniqueAccounts != r.journalFiles && r.uniquePayees != r.journalFiles && r.incomeBuckets != r.expenseBuckets
  ensures forall s string {has(r.uniqueAccounts, s)} {has(r.uniquePayees, s)} {has(r.journalFiles, s)} :: !has(r.uniqueAccounts, s) && !has(r.uniquePayees, s) && !has(r.journalFiles, s)

func (js *statisticsJournal) prepare()
  props C22
  requires js != nil && js.incomeBuckets != nil && js.expenseBuckets != nil && js.incomeBuckets != js.expenseBuckets
  modifies js.ageOfMoney
  modifies entries(js.incomeBuckets)
  modifies sortPerm
  modifies sortInv

// lengths are far below 2^53, where float64 holds every integer
extern math.Max(x float64, y float64) (r float64)
  flag pure
  ensures forall n int {itof(n)} :: 0 <= n && x == flit("1") && y == itof(n) ==> ftoi(r) == max(1, n)

extern (t time.Time) Sub(u time.Time) (d time.Duration)
  flag pure
extern (d time.Duration) Hours() (r float64)
  flag pure
extern math.Round(x float64) (r float64)
  flag pure
extern humanize.Time(t time.Time) (r string)
  flag pure

spec startsWith(s string, p string) bool = len(p) <= len(s) && s[0:len(p)] == p
func (js *statisticsJournal) report()
  props C22
  requires js != nil && js.transactionCount >= 0 && js.uniqueAccounts != nil && js.uniquePayees != nil && js.journalFiles != nil
  modifies out
  inv startsWith(out, old(out) ++ "Transactions found in " ++ itoa(len(js.journalFiles)) ++ " files:\n")
  ensures none: js.transactionCount == 0 ==> out == old(out) ++ "No transactions matched arguments.\n"
  ensures shown: js.transactionCount > 0 ==> (exists a string, b string, c string, d string, e string, f string
    {a ++ "First transaction:\t" ++ dateText(civil(js.firstTransactionDate)) ++ " (" ++ b ++ ")\nLast transaction:\t" ++ dateText(civil(js.lastTransactionDate)) ++ " (" ++ c ++ ")\nTime period:\t\t" ++ d ++ " days\nTransactions:\t\t" ++ itoa(js.transactionCount) ++ " (" ++ e ++ " per day)\nUnique accounts:\t" ++ itoa(len(js.uniqueAccounts)) ++ "\nUnique payees:\t\t" ++ itoa(len(js.uniquePayees)) ++ "\nAge of money:\t\t" ++ f ++ " days\n"} ::
    startsWith(a, old(out) ++ "Transactions found in " ++ itoa(len(js.journalFiles)) ++ " files:\n")
    && out == a ++ "First transaction:\t" ++ dateText(civil(js.firstTransactionDate)) ++ " (" ++ b ++ ")\nLast transaction:\t" ++ dateText(civil(js.lastTransactionDate)) ++ " (" ++ c ++ ")\nTime period:\t\t" ++ d ++ " days\nTransactions:\t\t" ++ itoa(js.transactionCount) ++ " (" ++ e ++ " per day)\nUnique accounts:\t" ++ itoa(len(js.uniqueAccounts)) ++ "\nUnique payees:\t\t" ++ itoa(len(js.uniquePayees)) ++ "\nAge of money:\t\t" ++ f ++ " days\n")
