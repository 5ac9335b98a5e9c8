package reporting

// regular expressions: a compiled expression is its pattern
uf patternOf(re *regexp.Regexp) string
uf compiles(pattern string) bool
uf matches(pattern string, s string) bool
uf hasPrefix(s string, p string) bool
uf upperRune(r int) bool

extern regexp.Compile(p string) (re *regexp.Regexp, err error)
  flag pure
  ensures (err == nil) == compiles(p)
  ensures err == nil ==> re != nil && patternOf(re) == p

extern (re *regexp.Regexp) MatchString(s string) (r bool)
  flag pure
  requires re != nil
  ensures r == matches(patternOf(re), s)

extern strings.HasPrefix(s string, p string) (r bool)
  flag pure
  ensures r == hasPrefix(s, p)
  ensures r ==> len(s) >= len(p)

extern unicode.IsUpper(c rune) (r bool)
  flag pure
  ensures r == upperRune(c)

opaque noUpper(rs []rune, n int) bool = forall i int {rs[i]} :: 0 <= i && i < n ==> !upperRune(rs[i])
spec caseless(s string) bool = noUpper(dec(s), len(dec(s)))

func ContainsUppercase(s string) (r bool)
  props C09 C20
  modifies nothing
  inv <i int> : noUpper(dec(s), i)
  ensures exact: r == !caseless(s)

// what a filter argument asks for
spec filterKind(arg string) int = hasPrefix(arg, "@") ? PayeeFilter : (hasPrefix(arg, "=") ? NoteFilter : AccountNameFilter)
spec filterText(arg string) string = hasPrefix(arg, "@") || hasPrefix(arg, "=") ? arg[1:] : arg
spec filterPattern(text string) string = caseless(text) ? "(?i)" ++ text : text

func NewFilter(arg string) (f Filter, err error)
  props C09 C20
  modifies nothing
  ensures refused: (err == nil) == compiles(filterPattern(filterText(arg)))
  ensures kind: err == nil ==> f.FilterType == filterKind(arg)
  ensures pattern: err == nil ==> f.regex != nil && patternOf(f.regex) == filterPattern(filterText(arg))

// does any of the texts match
spec anyMatch(p string, ts []string, n int) bool = n <= 0 ? false : matches(p, ts[n - 1]) || anyMatch(p, ts, n - 1)

spec matchesPayee(f Filter, t journal.Transaction) bool = f.FilterType == PayeeFilter && matches(patternOf(f.regex), t.Payee)
spec matchesNote(f Filter, t journal.Transaction) bool = f.FilterType == NoteFilter && (matches(patternOf(f.regex), t.HeaderNote) || anyMatch(patternOf(f.regex), t.Notes, len(t.Notes)))
spec matchesPosting(f Filter, p *journal.Posting) bool =
  f.FilterType == NoteFilter && anyMatch(patternOf(f.regex), p.Comments, len(p.Comments)) ||
  f.FilterType == AccountNameFilter && matches(patternOf(f.regex), p.AccountPath)
spec anyPosting(f Filter, ps []*journal.Posting, n int) bool = n <= 0 ? false : matchesPosting(f, ps[n - 1]) || anyPosting(f, ps, n - 1)

lemma anyMatchAt(p string, ts []string, i int, n int)
  requires 0 <= i && i < n && matches(p, ts[i])
  ensures anyMatch(p, ts, n)
  decreases n
  ih anyMatchAt(p, ts, i, n - 1) when i < n - 1
  trigger matches(p, ts[i]), anyMatch(p, ts, n)
lemma anyPostingAt(f Filter, ps []*journal.Posting, i int, n int)
  requires 0 <= i && i < n && matchesPosting(f, ps[i])
  ensures anyPosting(f, ps, n)
  decreases n
  ih anyPostingAt(f, ps, i, n - 1) when i < n - 1
  trigger anyPosting(f, ps, n), ps[i]
lemma payeeOnly(f Filter, ps []*journal.Posting, n int)
  requires f.FilterType != NoteFilter && f.FilterType != AccountNameFilter
  ensures !anyPosting(f, ps, n)
  decreases n
  ih payeeOnly(f, ps, n - 1) when n > 0
  trigger anyPosting(f, ps, n)

// p is among the first n
spec holds(ps []*journal.Posting, p *journal.Posting, n int) bool = n <= 0 ? false : ps[n - 1] == p || holds(ps, p, n - 1)
lemma holdsPrefix(ps []*journal.Posting, q *journal.Posting, p *journal.Posting, n int)
  requires 0 <= n && n <= len(ps)
  ensures holds(ps ++ [q], p, n) == holds(ps, p, n)
  decreases n
  ih holdsPrefix(ps, q, p, n - 1) when n > 0
  trigger holds(ps ++ [q], p, n)
lemma holdsIndex(ps []*journal.Posting, i int, n int)
  requires 0 <= i && i < n && n <= len(ps)
  ensures holds(ps, ps[i], n)
  decreases n
  ih holdsIndex(ps, i, n - 1) when i < n - 1
  trigger holds(ps, ps[i], n)
spec heldAt(ps []*journal.Posting, p *journal.Posting, n int) int = n <= 0 ? -1 : (ps[n - 1] == p ? n - 1 : heldAt(ps, p, n - 1))
lemma holdsIs(ps []*journal.Posting, p *journal.Posting, n int)
  requires holds(ps, p, n)
  ensures 0 <= heldAt(ps, p, n) && heldAt(ps, p, n) < n && ps[heldAt(ps, p, n)] == p
  decreases n
  ih holdsIs(ps, p, n - 1) when ps[n - 1] != p
  trigger holds(ps, p, n)
opaque distinctPostings(ps []*journal.Posting) bool = forall i int, j int {ps[i], ps[j]} :: 0 <= i && i < j && j < len(ps) ==> ps[i] != ps[j]
lemma distinctMore(ps []*journal.Posting, q *journal.Posting)
  requires distinctPostings(ps) && !holds(ps, q, len(ps))
  use forall i int {ps[i]} :: holdsIndex(ps, i, len(ps))
  ensures distinctPostings(ps ++ [q])
  trigger distinctPostings(ps ++ [q])

lemma distinctHolds(ps []*journal.Posting, i int)
  requires distinctPostings(ps) && 0 <= i && i < len(ps)
  ensures holds(ps, ps[i], len(ps))
  trigger distinctPostings(ps), ps[i]
lemma distinctFirst(ps []*journal.Posting)
  requires distinctPostings(ps) && len(ps) > 0
  ensures holds(ps, ps[0], len(ps))
  trigger distinctPostings(ps)

func (f Filter) MatchesTransactionHow(t journal.Transaction) (payee bool, note bool, ps []*journal.Posting)
  props C09
  flag never:journal.Account
  lend C05 C14 C16 C22
  requires f.regex != nil
  requires forall i int {t.Postings[i]} :: 0 <= i && i < len(t.Postings) ==> t.Postings[i] != nil && allocd(t.Postings[i])
  modifies nothing
  inv <i int, b bool> : b == (matches(patternOf(f.regex), t.HeaderNote) || anyMatch(patternOf(f.regex), t.Notes, i))
  inv <i int, m map[*journal.Posting]bool> : forall any p *journal.Posting {has(m, p)} :: has(m, p) == (holds(t.Postings, p, i) && matchesPosting(f, p))
  inv <i int, j int, m map[*journal.Posting]bool> : forall any p *journal.Posting {has(m, p)} :: has(m, p) == (holds(t.Postings, p, i) && matchesPosting(f, p) || p == t.Postings[i] && anyMatch(patternOf(f.regex), p.Comments, j))
  inv <seen set[*journal.Posting], out []*journal.Posting> : forall any p *journal.Posting {seen[p]} {holds(out, p, len(out))} :: holds(out, p, len(out)) == seen[p]
  inv <out []*journal.Posting> : distinctPostings(out)
  ensures payee: payee == matchesPayee(f, t)
  ensures note: note == matchesNote(f, t)
  ensures postings: forall any p *journal.Posting {holds(ps, p, len(ps))} :: holds(ps, p, len(ps)) == (holds(t.Postings, p, len(t.Postings)) && matchesPosting(f, p))
  ensures once: distinctPostings(ps)

func (f Filter) MatchesTransaction(t journal.Transaction) (r bool)
  props C09 C20
  requires f.regex != nil
  requires forall i int {t.Postings[i]} :: 0 <= i && i < len(t.Postings) ==> t.Postings[i] != nil && allocd(t.Postings[i])
  modifies nothing
  inv <i int> : !anyMatch(patternOf(f.regex), t.Notes, i)
  inv <i int> : !anyPosting(f, t.Postings, i)
  inv <i int, j int> : !anyPosting(f, t.Postings, i) && !anyMatch(patternOf(f.regex), t.Postings[i].Comments, j)
  ensures exact: r == (matchesPayee(f, t) || matchesNote(f, t) || anyPosting(f, t.Postings, len(t.Postings)))

func (f Filter) MatchesString(s string) (r bool)
  props C20
  requires f.regex != nil
  modifies nothing
  ensures exact: r == matches(patternOf(f.regex), s)
