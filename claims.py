CLAIMS = {
"C01": "Proved for every input: AddPosting and Close return without error only when every posting of the transaction has an amount and the amounts sum to zero.",
"C02": "Proved for every input: AddPosting refuses a second omitted amount; Close gives the omitted posting exactly the negated sum of the others in the entry's commodity and leaves stated amounts alone.",
"C03": "Proved for every rune sequence: parseAmount accepts exactly the described form within the representable range and returns exactly that many hundredths.",
"C04": "Proved for every amount: DisplayableQuantity and String spell exactly the stored quantity.",
"C05": "Proved for every tree of accounts and transaction: recording a posting changes exactly its account and the account's ancestors, each by exactly the amount; the balance report's handler adds to every account exactly the sum of the selected postings at or beneath it (root: all of them), and nothing for unselected transactions. Assumed: postings handed over by the parser are distinct and not yet placed (C02's builder contracts); composition over the sequence of transactions is by the handler contract. Display of the totals by the bounded stand-in only.",
"C06": "Proved for every tree and path: looking up or creating a path keeps the tree of accounts well formed (each account listed under its own name below its parent, path and components spelling its position), alters no existing account or link, and the same path always leads to the same account.",
"C07": "Proved for every tree of accounts: without the show-zero option an account can be reached from the root afterwards exactly when it or an account beneath it has an amount other than zero, by the same path as before; with the option no account is removed; nothing but the lists of children and the parent links of removed accounts changes, so no amount does. Assumed: the tree is well formed (C06's invariant). That the balance command calls prepareBalance before printing is covered by the bounded stand-in only.",
"C08": "Proved for every date and option value: withinDateRange answers exactly whether the calendar date lies in the range (with current: not after today), independent of the zone; the handler wrapper passes on exactly the transactions in range, the begin and end texts being read by the proved date parser.",
"C09": "Proved for every filter list and transaction: checkAgainstFilters gives all postings without filters or when a filter matches the whole transaction, and otherwise exactly the postings matching some filter, each once and in order; NewFilter and the matching functions under contract. Matching of the regular expression itself is an assumed contract on package regexp.",
"C10": "Proved for every line of bytes: a header line is handed over as exactly its date word, the mark ! or * if one follows, the payee up to a tab, two blanks or a comment mark, and the note after the mark (lexTransactionHeader, lexLine and the functions they call); and for every item: the builder accepts the date exactly when it is a calendar date with one separator throughout and sets exactly that date, state, payee and note, and nothing else. Assumed: utf8, unicode and time contracts; the callback from lexer to parser is represented by the sequence of items it is given. parseItem's dispatch, which joins lexer and builder, is covered by the bounded stand-in only.",
"C11": "Proved for every line of bytes: an indented line is handed over as exactly its account name up to a tab or two blanks, commodity and amount, or its comment text; any other indented text is refused; and for every item: the builder appends each posting exactly once in order, with exactly the account, commodity, amount and comments given, refuses items out of place or outside a transaction, and closing a transaction adds the last posting and loses none. parseItem's dispatch, which joins lexer and builder, is covered by the bounded stand-in only.",
"C12": "Proved for every function under contract (listed in the evidence, now including the lexer and the transaction builder) under its precondition: no index out of range, nil dereference, nil-map write, failing type assertion, division by zero or explicit panic. Functions outside the contracts (parseItem's dispatch, cobra glue) are covered by the bounded stand-in only, which runs the compiled program on generated journals and arguments.",
"C14": "Proved for every budget and posting: AddPosting and addIncomePosting change exactly the bucket of the posting's calendar month; an allocation adds its amount to exactly its category and the category's ancestors, an expense subtracts it from exactly its category and ancestors, income is subtracted from exactly the month's funds and pool; other months and accounts keep every amount; the handler gives the budget exactly the chosen expense and income postings, once each. The period parser reads exactly the month written, a budget entry stands for one transaction on that month's first day, and its postings are handed to the budget as allocations, each once and in order.",
"C15": "Proved for every budget: report prints exactly the months of the budget, each once, in date order, and for each its funds and one row per category in alphabetical order with allocation, activity and their sum, provided every category has its spending account in the same commodity. Assumed: time.Time.String, sort, Printf padding as uninterpreted layouts.",
"C16": "Proved for every list of transactions: the print handler keeps exactly the selected transactions in the order read, prepare sorts them stably by date (the comparison is shown to be a strict weak order), and report prints the exact text of each once. Assumed: package sort's contract, fmt.Sprintf's %s; how the command wires handler, prepare and report together is covered by the bounded stand-in only.",
"C18": "Proved for every text: ParseSmartDate accepts exactly the described forms and returns exactly that day at local midnight, everything else is refused. Assumed contracts: strings, strconv, time.",
"C20": "Proved for every transaction, filter list and report run: the account and payee handlers record exactly the names in transactions with and without filters, prepare yields each matching name exactly once in ascending order, report prints exactly that list. Assumed: regexp, sort.Strings; the command wiring (date range wrapper and parse) is covered by the bounded stand-in only.",
"C21": "Proved for every tree of accounts and amount label: the flat layout is exactly the lines label+path of the accounts without children, in depth-first order of the sorted names; the tree layout is exactly the rows specified recursively (each account beneath its parent, siblings in ascending order, two blanks per level, collapsing joins an account with its single child by a colon); report prints that layout with each account's own amount, and the total. Assumed: the tree is acyclic and well formed (C06's invariant), sort.Strings, fmt.Sprintf, function values pure and known by their values; the command wiring by the bounded stand-in only.",
"C22": "Proved for every transaction and report run: the statistics handler counts exactly the selected transactions, keeps the earliest and latest of their dates, and collects exactly the distinct accounts of the selected postings, payees and files; report prints those numbers. Ages are outside the property. Wiring of the command by the bounded stand-in only.",
"C23": "Proved for every loop and recursion of the functions under contract, the lexer's included: a measure decreases (the nested account tree of the tree layout is assumed finite in depth; files are assumed to have finitely many lines). The recursion through include lines is covered by the bounded stand-in only, which runs the compiled program under a time limit.",
"C13": "Proved for every line and transaction: an include line is handed over as the directory of the including file followed by the path written; closing a transaction hands exactly that transaction over, once, with the innermost open file. The opening of the file, the recursion into it and the refusal of files that include themselves (parseItem) are covered by the bounded stand-in only.",
"C19": "Proved for every sequence of lines: when a line is refused reading stops and the error begins with the name of the file, a colon and the 1-based number of that line; the end of the file is announced exactly when all lines were accepted. Assumed: bufio.Reader.ReadLine's contract. The naming of the including line (parseItem) is covered by the bounded stand-in only.",
"C17": "The two halves are proved: the text printed for every transaction is exactly the specified one, and every line of bytes is split into exactly the specified items. That the second applied to the first gives the transaction back is decided by the bounded stand-in only (generated journals printed, read and printed again by the compiled program), hence not claimed as a proof.",
}
UNCLAIMED = {}
LEVELS = {"C17": "other"}
