package parser

// ---- lines are read one after the other, and an error names the file and the line
uf emsg(e error) string
ghost linesRead int
ghost readError error
// a file has some finite number of lines
uf linesIn() int

extern (b *bufio.Reader) ReadLine() (line []byte, isPrefix bool, err error)
  modifies linesRead
  modifies readError
  ensures err == nil ==> linesRead == old(linesRead) + 1 && linesRead <= linesIn()
  ensures err != nil ==> linesRead == old(linesRead) && readError == err

func (l *lexer) lex() (err error)
  props C19
  requires l != nil && l.parser != nil && l.reader != nil && linesRead == 0
  modifies l.pos, l.width, l.start, l.input, l.currentLine
  modifies linesRead
  modifies readError
  modifies itemKinds
  modifies itemTexts
  modifies itemAnswer
  inv l.currentLine == linesRead + 1
  measure linesIn() - linesRead
  ensures placed: err != nil ==> err == readError || err == itemAnswer && itemKinds[len(itemKinds) - 1] == eofItem || startsWith(emsg(err), l.locationHint ++ ":" ++ itoa(linesRead) ++ "\n")
  ensures finished: err == nil ==> len(itemKinds) > 0 && itemKinds[len(itemKinds) - 1] == eofItem && l.currentLine == linesRead + 1

// ---- closing a transaction hands it over, complete and balanced, with the file it is in
func (tb *transactionBuilder) endNormalTransaction(t *journal.Transaction, p Parser) (err error)
  props C01 C11
  lend C13
  requires tb != nil && tb.transactionType == normalTransaction && building(tb, t)
  modifies t.Postings, t.postingWithElidedAmount
  modifies journal.Posting.Amount[*] where q: true
  ensures [C01] balanced: err == nil ==> balanced(t)
  ensures [C11] complete: err == nil ==> t.Postings == (len(tb.currentPosting.AccountPath) != 0 ? old(t.Postings) ++ [tb.currentPosting] : old(t.Postings))
  ensures [C11] stated: forall q *journal.Posting {q.Amount} :: old(allocd(q)) && old(q.Amount) != nil ==> q.Amount == old(q.Amount)

func (tb *transactionBuilder) endTransaction(p Parser) (err error)
  props C01 C11 C13
  requires tb != nil && tb.transactionType == normalTransaction
  requires tb.transaction != nil ==> building(tb, tb.transaction)
  requires len(p.journalFiles) > 0
  modifies tb.transaction, tb.currentPosting
  modifies journal.Transaction.Postings[*] where q: q == old(tb.transaction)
  modifies journal.Transaction.postingWithElidedAmount[*] where q: q == old(tb.transaction)
  modifies journal.Posting.Amount[*] where q: true
  modifies handed
  modifies handedPath
  modifies answer
  ensures nothing: old(tb.transaction) == nil ==> err == nil && handed == old(handed) && handedPath == old(handedPath)
  ensures [C01] balanced: err == nil && old(tb.transaction) != nil ==> balanced(old(tb.transaction))
  ensures [C01,C11,C13] once: err == nil && old(tb.transaction) != nil && p.transactionHandler != nil ==> handed == old(handed) ++ [old(tb.transaction)]
  ensures [C13] attributed: err == nil && old(tb.transaction) != nil && p.transactionHandler != nil ==> handedPath == old(handedPath) ++ [p.journalFiles[len(p.journalFiles) - 1]]
  ensures [C13,C11] closed: err == nil ==> tb.transaction == nil && (old(tb.transaction) != nil ==> tb.currentPosting == nil)
  ensures [C01,C13] refused: err != nil ==> handed == old(handed) || handed == old(handed) ++ [old(tb.transaction)] && err == answer

func (tb *transactionBuilder) beginTransaction(t transactionType)
  props C10 C11
  requires tb != nil && t == normalTransaction
  modifies tb.transactionType, tb.transaction, tb.currentPosting
  ensures fresh: fresh(tb.transaction) && fresh(tb.currentPosting) && building(tb, tb.transaction) && tb.transactionType == normalTransaction
  ensures empty: len(tb.transaction.Postings) == 0 && len(tb.transaction.Notes) == 0 && tb.transaction.HeaderNote == "" && tb.transaction.Payee == "" && tb.transaction.State == journal.NoState
  ensures unnamed: tb.currentPosting.AccountPath == "" && tb.currentPosting.Amount == nil && len(tb.currentPosting.Comments) == 0

// items are refused outside of a transaction, comments are skipped there
func (tb *transactionBuilder) build(t itemType, content []rune) (err error)
  props C10 C11
  requires tb != nil && tb.transactionType == normalTransaction
  requires tb.currentPosting != nil ==> building(tb, tb.transaction)
  requires t == stateItem ==> len(content) > 0
  modifies tb.currentPosting, tb.previousItemType
  modifies journal.Transaction.Date[*] where q: q == tb.transaction
  modifies journal.Transaction.State[*] where q: q == tb.transaction
  modifies journal.Transaction.Payee[*] where q: q == tb.transaction
  modifies journal.Transaction.HeaderNote[*] where q: q == tb.transaction
  modifies journal.Transaction.Notes[*] where q: q == tb.transaction
  modifies journal.Transaction.Postings[*] where q: q == tb.transaction
  modifies journal.Transaction.postingWithElidedAmount[*] where q: q == tb.transaction
  modifies journal.Posting.AccountPath[*] where q: old(tb.currentPosting) != nil
  modifies journal.Posting.Transaction[*] where q: old(tb.currentPosting) != nil
  modifies journal.Posting.Comments[*] where q: old(tb.currentPosting) != nil && q == old(tb.currentPosting)
  modifies journal.Posting.Amount[*] where q: old(tb.currentPosting) != nil && q == old(tb.currentPosting)
  modifies journal.Amount.Commodity[*] where a: old(tb.currentPosting) != nil
  modifies journal.Amount.Quantity[*] where a: old(tb.currentPosting) != nil
  ensures [C11] outside: old(tb.currentPosting) == nil ==> (err == nil) == (t == commentItem) && tb.currentPosting == nil && tb.previousItemType == old(tb.previousItemType)
  ensures [C11] lost: old(tb.currentPosting) != nil && !(t == accountItem && err == nil && len(old(tb.currentPosting.AccountPath)) != 0) ==> tb.transaction.Postings == old(tb.transaction.Postings)
  ensures [C11] opened: old(tb.currentPosting) != nil && t == accountItem && err == nil && len(old(tb.currentPosting.AccountPath)) != 0 ==> tb.transaction.Postings == old(tb.transaction.Postings) ++ [old(tb.currentPosting)]
  ensures previous: old(tb.currentPosting) != nil && err == nil ==> tb.previousItemType == t
  ensures building: old(tb.currentPosting) != nil ==> building(tb, tb.transaction)
  ensures [C10] date: old(tb.currentPosting) != nil && t == dateItem && err == nil ==> civil(tb.transaction.Date) == dayNumber(num4(enc(content), 0), num2(enc(content), 5), num2(enc(content), 8))
  ensures [C10] payee: old(tb.currentPosting) != nil && t == payeeItem && err == nil ==> tb.transaction.Payee == enc(content)
  ensures [C10] note: old(tb.currentPosting) != nil && t == transactionHeaderCommentItem ==> err == nil && tb.transaction.HeaderNote == enc(content)

// the month of a budget entry
func parsePeriod(content []rune) (r journal.Period, err error)
  props C14
  modifies nothing
  ensures always: err == nil && r.Interval == journal.PNone
  ensures month: ymText(enc(content), 45) ==> midnight(r.StartDate) && civil(r.StartDate) == dayNumber(num4(enc(content), 0), num2(enc(content), 5), 1)
