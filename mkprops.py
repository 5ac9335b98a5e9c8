import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
p("C01","Every transaction a report sees balances",
 "For every journal text, each transaction (and each budget allocation) handed to a report has an amount on every posting, and those amounts sum to exactly zero. A journal containing an entry that cannot be balanced is refused with an error, and the unbalanced entry reaches no report.",
 ["inputs"],"all journals, any number of postings, any amounts whose sums fit 64 bits",
 "No existing test closes a transaction at all; a test could only sample posting lists, while the guarantee is over every list of postings in every order.",
 ["journal/transaction.go","parser/transactionbuilder.go","parser/parser.go"],
 [("closing a transaction: sum the amounts, assign or refuse","journal/transaction.go:Close"),("at most one posting without amount","journal/transaction.go:AddPosting"),("close before hand-over","parser/transactionbuilder.go:endTransaction, endNormalTransaction")],
 [("postings of the open transaction","what will be handed over","journal.Transaction.Postings"),("posting without amount","the one that absorbs the remainder","journal.Transaction.postingWithElidedAmount")],
 ["transaction and periodic-transaction handlers called by the parser","gledger print"])
p("C02","An omitted amount is exactly what balances the entry",
 "At most one posting of a transaction may omit its amount, wherever it stands in the entry; that posting receives exactly the negated sum of the stated amounts (zero included), in the entry's commodity, and every stated amount is left as written. An entry with two or more omitted amounts is refused with an error.",
 ["inputs"],"all entries, any position and number of omitted amounts",
 "Tests never build an entry with an omitted amount; position and count of omissions form an unbounded space.",
 ["journal/transaction.go","parser/transactionbuilder.go"],
 [("elided posting bookkeeping","journal/transaction.go:AddPosting"),("assignment of the remainder","journal/transaction.go:Close"),("propagation of the refusal","parser/transactionbuilder.go:buildNormalTransaction")],
 [("posting without amount","absorbs the remainder","journal.Transaction.postingWithElidedAmount")],["gledger print, gledger balance"])
p("C03","Amounts are read exactly as written or refused",
 "An amount written as an optional sign, one or more digits and optionally a point followed by one or two digits is read as exactly that many hundredths. Anything else - other characters, a missing digit group, a second sign, more than two decimals, or a value outside the representable range - is refused with an error; no amount is ever rounded, rescaled or wrapped.",
 ["inputs"],"every sequence of characters in amount position",
 "TestAmountItemParsing samples five strings, none with a single decimal digit, too many decimals or an overflowing value.",
 ["parser/parser.go"],[("amount parser","parser/parser.go:parseAmount")],(),["posting amounts in gledger print / balance"])
p("C04","Amounts are displayed exactly, to the hundredth",
 "Every representable amount is displayed as an optional minus sign, the whole units without padding, a point and exactly two digits, denoting exactly the stored number of hundredths; the commodity precedes it exactly when asked for. Except for the single most negative value, reading the displayed number back gives the same amount.",
 ["inputs"],"all 64-bit quantities, all commodities",
 "Five sampled values of at most four digits; precision is only lost far from them.",
 ["journal/amount.go","parser/parser.go"],[("amount formatting","journal/amount.go:DisplayableQuantity, String"),("amount parser","parser/parser.go:parseAmount")],(),["every amount printed by any command"])
p("C05","Account balances roll up exactly",
 "In the balance report each account's amount equals the sum of the selected postings made to that account and to all accounts beneath it, and the grand total equals the sum of all selected postings. Recording one posting changes exactly that account and its ancestors, each by exactly the posting's amount, and no other account.",
 ["inputs","histories"],"all account trees and all sequences of postings (totals within 64 bits)",
 "No test records a posting to an account; the guarantee quantifies over trees and histories.",
 ["journal/journal.go","journal/account.go","journal/amount.go","cmd/balance.go"],
 [("posting to an account and its ancestors","journal/journal.go:wireUpPosting, AddPosting"),("ancestor walk","journal/account.go:WalkAncestors"),("amount addition","journal/amount.go:Add"),("selection loop","cmd/balance.go:transactionHandler")],
 [("account amount","running total of the subtree","journal.Account.Amount")],["gledger balance"])
p("C06","An account path names exactly one account",
 "Looking up or creating a colon-separated account path yields one account per distinct path: the same path always gives the same account, different paths give different accounts, and existing accounts, their names, totals and links are never altered by it. Each account's name, full path and path components spell its path, and parent and child links agree with each other.",
 ["inputs","histories"],"all sequences of lookups of non-empty component lists",
 "TestFindOrCreate performs three lookups at depth two; aliasing and relinking faults need deeper trees or particular histories.",
 ["journal/account.go"],[("lookup","journal/account.go:findChild, FindOrCreateAccount"),("creation","journal/account.go:newAccountWithChildren, NewAccount, CreatePath")],
 [("child links","accounts one level down by name","journal.Account.Children"),("parent link","account one level up","journal.Account.Parent"),("path data","full path of the account","journal.Account.Path, PathComponents")],["gledger balance --flatten"])
p("C07","Hiding zero balances never hides money",
 "Without the show-zero option the balance report leaves out an account exactly when it and every account beneath it have a zero amount; with the option nothing is left out. Leaving accounts out changes no amount that is shown, nor the grand total.",
 ["inputs"],"all account trees and amounts",
 "Removal is tested once with a name matcher on one small tree; never with amounts, nor with parents that net to zero.",
 ["journal/account.go","cmd/balance.go"],[("removal of empty accounts","journal/account.go:RemoveEmptyChildren, RemoveChildren, Unlink"),("option","cmd/balance.go:prepareBalance")],
 [("child links","what is reported","journal.Account.Children")],["gledger balance, gledger balance -Z"])
p("C08","Date options select by calendar date",
 "A transaction is selected exactly when its date is on or after the begin date (if given) and before the end date (if given); with the current option, which overrides both, exactly when its date is not after today. Selection compares calendar dates as written and does not depend on the local time zone or the time of day, and a begin or end date that cannot be understood is reported as an error.",
 ["inputs","configurations"],"all transaction dates, all option combinations, all time zones and clock values",
 "No test covers the date options; faults show only at boundary dates, in particular zones or at particular hours.",
 ["cmd/common.go","parser/dates.go"],[("range test","cmd/common.go:withinDateRange"),("wrappers","cmd/common.go:dateCheckedTransactionHandler, checkAgainstFilters"),("option dates","parser/dates.go:ParseSmartDate")],(),["gledger print -b/-e/-c, balance, accounts, payees, statistics"])
p("C09","Filters select exactly the matching postings",
 "With no filters every posting of a transaction is selected. Otherwise, a payee (@) or note (=) filter matching the transaction as a whole selects all its postings; failing that, exactly the postings whose account name (plain filter) or comment (= filter) matches at least one filter are selected, each once. A filter ignores case unless it contains an upper-case letter.",
 ["inputs"],"all transactions, all filter lists, all regular expressions",
 "No test exercises filters; the space is every combination of filters, transactions and postings.",
 ["reporting/filter.go","cmd/common.go"],[("filter construction","reporting/filter.go:NewFilter, ContainsUppercase"),("matching","reporting/filter.go:MatchesTransactionHow, MatchesTransaction, MatchesString"),("combination","cmd/common.go:checkAgainstFilters")],
 [("filter list","filters of this invocation","cmd.filters")],["gledger balance / print / statistics / accounts with filters"])
p("C10","Transaction headers are read as written",
 "A header line gives a transaction whose date is the calendar date written (year, month and day separated consistently by -, . or /), whose state is the mark ! or * if one follows the date and none otherwise, whose payee is the following text up to a tab, two spaces or a comment mark, and whose note is the complete text after the comment mark. A line whose date is malformed is refused with an error.",
 ["inputs"],"all header lines",
 "Two header lines are lexed in the tests, without state or note; text corruption depends on spacing and the characters present.",
 ["parser/lexer.go","parser/parser.go","parser/transactionbuilder.go"],[("header lexing","parser/lexer.go:lexTransactionHeader, takeUntilSpace, takeToTabOrNextLineOrComment, takeToNextLine, trimSpaceStart"),("date parsing","parser/parser.go:parseDate"),("header fields","parser/transactionbuilder.go:buildNormalTransaction")],
 [("lexer position","what has been consumed","parser.lexer.pos")],["gledger print, gledger payees"])
p("C11","Every posting line becomes one posting, none is lost",
 "Every posting line of an accepted entry yields exactly one posting of that entry, in the order written, with the account name exactly as written (up to a tab or two spaces), its commodity and amount; a comment line belongs to the posting it follows, or to the transaction if no posting precedes it, with its text complete. An indented line that is neither blank, a comment nor a readable posting, or a posting outside any entry, is refused with an error, never skipped.",
 ["inputs"],"all sequences of lines within an entry",
 "No test reads a posting line; which line is lost depends on the sequence of lines around it.",
 ["parser/lexer.go","parser/transactionbuilder.go","parser/parser.go","journal/transaction.go"],[("posting lexing","parser/lexer.go:lexPosting, takeUntilMoreThanOneSpace, lexCommodity, consumeSpace"),("posting assembly","parser/transactionbuilder.go:buildNormalTransaction, endNormalTransaction")],
 [("open posting","posting being assembled","parser.transactionBuilder.currentPosting")],["gledger print, gledger accounts"])
p("C12","No input crashes the program",
 "Whatever bytes the journal files contain and whatever filter and date arguments are given, every command ends with a report or with an error message, never with a run-time panic.",
 ["inputs"],"all byte sequences as journals, all filter and date arguments",
 "The tests feed well-formed fragments; a crash needs one unusual line or combination of lines.",
 ["parser/lexer.go","parser/parser.go","parser/transactionbuilder.go","parser/dates.go","journal/account.go","journal/transaction.go","journal/budget.go","journal/journal.go","reporting/filter.go","reporting/tree.go","cmd/common.go","cmd/budget.go","cmd/stats.go"],
 [("index, slice, nil and map safety of every function on the reading path","parser, journal, reporting, cmd")],(),["exit status and stderr of any gledger command"])
p("C13","Included files are read in place, once, and attributed",
 "An include line reads the named file, resolved against the directory of the including file, at that point: each of its transactions is delivered exactly once, after those before the include line and before those following it. Every transaction is attributed to the file it is written in, also when includes are nested or several; a file that cannot be opened or includes itself is reported as an error.",
 ["inputs","histories"],"all trees of including files",
 "No test includes a file; order and attribution need nested or repeated includes.",
 ["parser/parser.go","parser/lexer.go","parser/transactionbuilder.go"],[("include directive","parser/lexer.go:lexIncludeDirective"),("include handling, open-file stack","parser/parser.go:parseItem, Parse"),("attribution","parser/transactionbuilder.go:endTransaction")],
 [("open files","stack of files being read","parser.Parser.journalFiles")],["gledger print order, gledger statistics file list"])
p("C14","Budget months add up independently",
 "For every month, a category's allocation equals the sum of the amounts budgeted to it in that month, its activity equals the negated sum of the expense postings to it (or beneath it) in that month, and the month's funds equal the negated sum of its income postings. Recording an amount changes only the month and the category (with its ancestors) it belongs to.",
 ["inputs","histories"],"all sequences of allocations, expenses and incomes over any dates (totals within 64 bits)",
 "No test touches the budget; bucket faults need several months or categories.",
 ["journal/budget.go","journal/account.go","journal/periodictransaction.go","cmd/budget.go","parser/parser.go"],[("month buckets","journal/budget.go:AddPosting, addIncomePosting, normaliseToMonth, newBudgetMonth"),("classification","cmd/budget.go:transactionHandler, periodicTransactionHandler"),("period parsing","parser/parser.go:parsePeriod, journal/periodictransaction.go:Run")],
 [("months","one bucket per calendar month","journal.Budget.Months")],["gledger budget"])
p("C15","Budget report rows show allocation, activity, remainder",
 "The budget report lists months in date order and within a month one row per category in alphabetical order; each row shows under Budgeted the allocation, under Activity the (negative) spending and under Available their sum, together with the month's funds.",
 ["inputs"],"all budgets",
 "The report is not tested; a wrong column or order is invisible to the tests.",
 ["cmd/budget.go","journal/amount.go"],[("report","cmd/budget.go:report")],(),["gledger budget"])
p("C16","Print shows selected transactions in stable date order",
 "The print report shows every selected transaction exactly once and nothing else, in ascending date order, and transactions of the same date in the order they were read.",
 ["inputs"],"all journals of any length",
 "Print is not tested; instability of a sort shows only on longer journals with equal dates.",
 ["cmd/print.go"],[("collection and ordering","cmd/print.go:transactionHandler, prepare, report")],
 [("collected transactions","what will be printed","cmd.printJournal.transactions")],["gledger print"])
p("C17","Printed transactions read back unchanged",
 "For every accepted journal (lines below 4 KiB, no carriage returns within text), reading the output of print gives transactions with the same dates, states, payees, notes, accounts, commodities, amounts and comments, and printing those again gives the same text.",
 ["inputs"],"all transactions the reader can deliver",
 "No test prints a transaction; the round trip depends on every character of every field.",
 ["journal/transaction.go","journal/posting.go","journal/amount.go","parser/lexer.go","parser/parser.go"],[("rendering","journal/transaction.go:String, journal/posting.go:String, journal/amount.go:DisplayableQuantity"),("re-reading","parser/lexer.go, parser/transactionbuilder.go")],(),["gledger print | gledger print -f -"])
p("C18","Option dates mean the date they spell",
 "A date option of the form year, year/month, month/day (current year) or year/month/day, separated consistently by /, . or -, denotes exactly the first day of that year or month, or that day; every other text, including impossible dates and signed or short years, is refused with an error.",
 ["inputs"],"all strings",
 "Tests sample a dozen strings; mixed separators, signs and impossible dates are not covered.",
 ["parser/dates.go"],[("dispatch","parser/dates.go:ParseSmartDate"),("forms","parser/dates.go:parseYear, parseYearMonth, parseMonthDay, parseYearMonthDay")],(),["--begin / --end of any command"])
p("C19","Reading errors name the file and line",
 "When a line of a journal is refused, the error names the file and the 1-based number of that line, also inside included files, where the including line is named as well; reading stops there and no later transaction is delivered.",
 ["inputs"],"all journals with an offending line anywhere",
 "No test looks at error text or at what follows an error.",
 ["parser/lexer.go","parser/parser.go"],[("line counting and wrapping","parser/lexer.go:lex"),("propagation","parser/parser.go:Parse, parseItem")],
 [("line counter","number of the current line","parser.lexer.currentLine")],["error message of any command"])
p("C20","Account and payee lists are complete, unique and sorted",
 "The account list shows exactly the distinct account names posted to, and the payee list exactly the distinct payees, of the transactions within the date range, restricted to those matching at least one filter if filters are given; each appears once and in alphabetical order.",
 ["inputs"],"all journals, all filter lists",
 "The listings are untested; duplicates or omissions need particular combinations.",
 ["cmd/accounts.go","cmd/payees.go","cmd/common.go"],[("collection","cmd/accounts.go:transactionHandler, cmd/payees.go:transactionHandler"),("selection and ordering","cmd/accounts.go:prepare, cmd/payees.go:prepare")],
 [("collected names","distinct names seen","cmd.accountsJournal, cmd.payeesJournal")],["gledger accounts, gledger payees"])
p("C21","Balance layouts show every account once, in order",
 "The tree layout shows every reported account exactly once, beneath its parent, siblings in alphabetical order, indented two spaces per level and preceded by its amount; collapsing only joins an account with its single child by a colon. The flat layout shows every account without children exactly once, with its full path and amount, in the same order.",
 ["inputs"],"all account trees",
 "The layout tests of this package do not compile at this commit, so nothing is checked.",
 ["reporting/tree.go","reporting/flattenedtree.go","journal/account.go"],[("tree layout","reporting/tree.go:Tree, tree"),("flat layout","reporting/flattenedtree.go:FlattenedTree, flattenedTree"),("ordering","journal/account.go:SortedChildNames")],(),["gledger balance, -F, -C"])
p("C22","Statistics count what was selected",
 "The statistics report gives the exact number of selected transactions, the earliest and latest of their dates, and the numbers of distinct accounts among the selected postings, distinct payees and distinct files among them.",
 ["inputs","histories"],"all journals, all selections",
 "Statistics are untested; counts must hold after any sequence of transactions.",
 ["cmd/stats.go"],[("accumulation","cmd/stats.go:transactionHandler")],
 [("accumulated figures","counts and extremes so far","cmd.statisticsJournal")],["gledger statistics"])
p("C23","Reading always finishes",
 "Reading any journal and building any report terminates: every step of the reader consumes input or stops, and every walk over accounts, postings or filters visits each item a bounded number of times.",
 ["inputs"],"all byte sequences of finite length, all account trees",
 "Non-termination is not observable by sampling; the tests lex a handful of lines.",
 ["parser/lexer.go","parser/parser.go","journal/account.go","journal/transaction.go","reporting/tree.go","reporting/filter.go"],[("loops of the lexer","parser/lexer.go"),("recursions over accounts","journal/account.go, reporting/tree.go, reporting/flattenedtree.go")],(),["any command returning"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
