package journal

// a budget entry stands for one transaction on its start date
func (pt *PeriodicTransaction) Run(start time.Time, end time.Time) (r []Transaction)
  flag never:journal.Account
  props C14
  requires pt != nil && pt.Period.Interval == PNone
  modifies pt.Transaction.Date
  ensures one: len(r) == 1 && r[0].Date == pt.Period.StartDate && r[0].Postings == pt.Transaction.Postings
  ensures dated: pt.Transaction.Date == pt.Period.StartDate
