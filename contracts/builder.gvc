package parser

// ---- header and posting items become fields of the transaction

func parseDate(content []rune) (t time.Time, err error)
  props C10
  flag helper never:journal.Account
  modifies nothing
  ensures ok: (err == nil) == (len(content) >= 5 && (content[4] == '-' || content[4] == '.' || content[4] == '/') && ymdText(enc(content), content[4]))
  ensures day: err == nil ==> midnight(t) && civil(t) == dayNumber(num4(enc(content), 0), num2(enc(content), 5), num2(enc(content), 8))

// the transaction being built and its open posting, which is not yet listed
spec building(tb *transactionBuilder, t *journal.Transaction) bool =
  tb.currentPosting != nil && t != nil && txOpen(t) && t.postingWithElidedAmount != tb.currentPosting &&
  (forall i int {t.Postings[i]} :: 0 <= i && i < len(t.Postings) ==> t.Postings[i] != tb.currentPosting)

spec amountOf(content []rune) int = len(content) > 0 && content[0] == 45 ? 0 - hundredths(unsigned(content)) : hundredths(unsigned(content))

// an account line may follow these
spec beforeAccount(p int) bool = p == commentItem || p == transactionHeaderCommentItem || p == payeeItem || p == amountItem || p == accountItem || p == periodItem

func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, item itemType, content []rune) (err error)
  props C10 C11
  requires tb != nil && building(tb, t)
  requires item == stateItem ==> len(content) > 0
  modifies t.Date, t.State, t.Payee, t.HeaderNote, t.Notes, t.Postings, t.postingWithElidedAmount
  modifies tb.currentPosting
  modifies journal.Posting.AccountPath[*] where p: p == tb.currentPosting
  modifies journal.Posting.Transaction[*] where p: p == tb.currentPosting
  modifies journal.Posting.Comments[*] where p: p == old(tb.currentPosting)
  modifies journal.Posting.Amount[*] where p: p == old(tb.currentPosting)
  modifies journal.Amount.Commodity[*] where a: old(tb.currentPosting.Amount) != nil && a == old(tb.currentPosting.Amount)
  modifies journal.Amount.Quantity[*] where a: old(tb.currentPosting.Amount) != nil && a == old(tb.currentPosting.Amount)
  ensures building: building(tb, t)
  ensures [C10] date: item == dateItem ==> (err == nil) == (len(content) >= 5 && (content[4] == '-' || content[4] == '.' || content[4] == '/') && ymdText(enc(content), content[4]))
  ensures [C10] day: item == dateItem && err == nil ==> midnight(t.Date) && civil(t.Date) == dayNumber(num4(enc(content), 0), num2(enc(content), 5), num2(enc(content), 8))
  ensures [C10] datekept: item != dateItem ==> t.Date == old(t.Date)
  ensures [C10] state: item == stateItem && err == nil ==> t.State == (content[0] == '!' ? journal.UnclearedState : content[0] == '*' ? journal.ClearedState : journal.NoState)
  ensures [C10] stateread: item == stateItem ==> (err == nil) == (tb.previousItemType == dateItem)
  ensures [C10] statekept: item != stateItem ==> t.State == old(t.State)
  ensures [C10] payee: item == payeeItem && err == nil ==> t.Payee == enc(content)
  ensures [C10] payeeread: item == payeeItem ==> (err == nil) == (tb.previousItemType == dateItem || tb.previousItemType == stateItem)
  ensures [C10] payeekept: item != payeeItem ==> t.Payee == old(t.Payee)
  ensures [C10] note: item == transactionHeaderCommentItem ==> err == nil && t.HeaderNote == enc(content)
  ensures [C10] notekept: item != transactionHeaderCommentItem ==> t.HeaderNote == old(t.HeaderNote)
  ensures [C11] comment: item == commentItem ==> err == nil && (len(tb.currentPosting.AccountPath) != 0 ? tb.currentPosting.Comments == old(tb.currentPosting.Comments) ++ [enc(content)] && t.Notes == old(t.Notes) : t.Notes == old(t.Notes) ++ [enc(content)] && tb.currentPosting.Comments == old(tb.currentPosting.Comments))
  ensures [C11] commentkept: item != commentItem ==> t.Notes == old(t.Notes) && old(tb.currentPosting).Comments == old(tb.currentPosting.Comments)
  ensures [C11] account: item == accountItem && err == nil ==> tb.currentPosting.AccountPath == enc(content) && tb.currentPosting.Transaction == t && beforeAccount(tb.previousItemType)
  ensures [C11] opened: item == accountItem && err == nil && len(old(tb.currentPosting.AccountPath)) != 0 ==> t.Postings == old(t.Postings) ++ [old(tb.currentPosting)] && fresh(tb.currentPosting) && tb.currentPosting.Amount == nil && len(tb.currentPosting.Comments) == 0 && old(tb.currentPosting).AccountPath == old(tb.currentPosting.AccountPath)
  ensures [C11] first: !(item == accountItem && err == nil && len(old(tb.currentPosting.AccountPath)) != 0) ==> t.Postings == old(t.Postings)
  ensures [C11] same: item != accountItem ==> tb.currentPosting == old(tb.currentPosting) && tb.currentPosting.AccountPath == old(tb.currentPosting.AccountPath)
  ensures [C11] commodity: item == commodityItem && err == nil ==> tb.currentPosting.Amount != nil && tb.currentPosting.Amount.Commodity == enc(content)
  ensures [C11] commodityread: item == commodityItem ==> (err == nil) == (tb.previousItemType == accountItem)
  ensures [C11] amount: item == amountItem && err == nil ==> tb.currentPosting.Amount != nil && tb.currentPosting.Amount.Quantity == amountOf(content)
  ensures [C11] amountkept: item != commodityItem && item != amountItem && tb.currentPosting == old(tb.currentPosting) ==> tb.currentPosting.Amount == old(tb.currentPosting.Amount)
