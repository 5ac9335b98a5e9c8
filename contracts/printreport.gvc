package cmd

// ---- the print report
spec printed(ts []*journal.Transaction, n int) string = n <= 0 ? "" : printed(ts, n - 1) ++ transactionText(*ts[n - 1]) ++ "\n"

func (pj *printJournal) transactionHandler(t *journal.Transaction, path string) (err error)
  props C16
  requires pj != nil && t != nil && midnight(t.Date) && validFilters() && validPostings(t.Postings)
  modifies now
  modifies pj.transactions
  ensures refused: (err == nil) == dateOptionsOK()
  ensures kept: err != nil ==> pj.transactions == old(pj.transactions)
  ensures selected: err == nil ==> pj.transactions == (selected(*t) ? old(pj.transactions) ++ [t] : old(pj.transactions))

func (pj *printJournal) prepare()
  props C16
  requires pj != nil && (forall i int {pj.transactions[i]} :: 0 <= i && i < len(pj.transactions) ==> pj.transactions[i] != nil && midnight(pj.transactions[i].Date))
  modifies pj.transactions
  modifies sortPerm
  modifies sortInv
  ensures count: len(pj.transactions) == len(old(pj.transactions))
  ensures same: forall i int {pj.transactions[i]} :: 0 <= i && i < len(pj.transactions) ==> 0 <= sortPerm[i] && sortPerm[i] < len(pj.transactions) && pj.transactions[i] == old(pj.transactions)[sortPerm[i]] && sortInv[sortPerm[i]] == i
  ensures all: forall i int {sortInv[i]} :: 0 <= i && i < len(pj.transactions) ==> 0 <= sortInv[i] && sortInv[i] < len(pj.transactions) && sortPerm[sortInv[i]] == i
  ensures order: forall i int, j int {pj.transactions[i], pj.transactions[j]} :: 0 <= i && i < j && j < len(pj.transactions) ==> civil(pj.transactions[i].Date) <= civil(pj.transactions[j].Date)
  ensures stable: forall i int, j int {pj.transactions[i], pj.transactions[j]} :: 0 <= i && i < j && j < len(pj.transactions) && civil(pj.transactions[i].Date) == civil(pj.transactions[j].Date) ==> sortPerm[i] < sortPerm[j]

func (pj *printJournal) report()
  props C16
  requires pj != nil && (forall i int {pj.transactions[i]} :: 0 <= i && i < len(pj.transactions) ==> pj.transactions[i] != nil && validPostings(pj.transactions[i].Postings))
  modifies out
  inv <i int> : out == old(out) ++ printed(pj.transactions, i)
  ensures printed: out == old(out) ++ printed(pj.transactions, len(pj.transactions))
