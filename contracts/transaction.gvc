package journal

// the sum of the stated amounts among the first n postings
spec stated(ps []*Posting, n int) int = n <= 0 ? 0 : stated(ps, n - 1) + (ps[n - 1].Amount == nil ? 0 : ps[n - 1].Amount.Quantity)

// the commodity an elided posting receives: that of the last posting that states one
spec lastCommodity(ps []*Posting, n int) string = n <= 0 ? "" : ((ps[n - 1].Amount != nil && len(ps[n - 1].Amount.Commodity) > 0) ? ps[n - 1].Amount.Commodity : lastCommodity(ps, n - 1))

// exactly the posting remembered as elided, if any, lacks an amount
spec txOpen(t *Transaction) bool =
  (forall i int {t.Postings[i]} :: 0 <= i && i < len(t.Postings) ==> allocd(t.Postings[i]) && (t.Postings[i].Amount == nil) == (t.Postings[i] == t.postingWithElidedAmount)) &&
  (t.postingWithElidedAmount != nil ==> 0 <= elidedAt(t.Postings, t.postingWithElidedAmount, len(t.Postings)) && t.postingWithElidedAmount.Amount == nil) &&
  (forall i int, j int {t.Postings[i], t.Postings[j]} :: 0 <= i && i < j && j < len(t.Postings) ==> t.Postings[i] != t.Postings[j])

// the position of p among the first n postings, -1 if absent
spec elidedAt(ps []*Posting, p *Posting, n int) int = n <= 0 ? 0 - 1 : (ps[n - 1] == p ? n - 1 : elidedAt(ps, p, n - 1))

lemma elidedAtRange(ps []*Posting, p *Posting, n int)
  ensures elidedAt(ps, p, n) < n || n <= 0
  ensures n >= 0 && elidedAt(ps, p, n) >= 0 ==> ps[elidedAt(ps, p, n)] == p
  ensures elidedAt(ps, p, n) >= 0 - 1
  decreases n
  ih elidedAtRange(ps, p, n - 1) when n > 0
  trigger elidedAt(ps, p, n)

lemma elidedAtPrefix(ps []*Posting, qs []*Posting, p *Posting, n int)
  requires 0 <= n && n <= len(ps)
  ensures elidedAt(ps ++ qs, p, n) == elidedAt(ps, p, n)
  decreases n
  ih elidedAtPrefix(ps, qs, p, n - 1) when n > 0

// giving posting e an amount q adds q exactly once
lemma statedAfter(ps []*Posting, e *Posting, q int, n int)
  requires 0 <= n && n <= len(ps)
  requires forall i int {ps[i]} :: 0 <= i && i < n ==> (old(ps[i].Amount) == nil) == (ps[i] == e)
  requires forall i int {ps[i]} :: 0 <= i && i < n && ps[i] != e ==> ps[i].Amount == old(ps[i].Amount) && ps[i].Amount.Quantity == old(ps[i].Amount.Quantity)
  requires forall i int, j int {ps[i], ps[j]} :: 0 <= i && i < j && j < n ==> ps[i] != ps[j]
  requires e != nil ==> e.Amount != nil && e.Amount.Quantity == q
  requires forall i int {ps[i]} :: 0 <= i && i < n ==> ps[i] != nil
  ensures stated(ps, n) == old(stated(ps, n)) + (elidedAt(ps, e, n) >= 0 ? q : 0)
  decreases n
  ih statedAfter(ps, e, q, n - 1) when n > 0

// what reports rely on: every posting has an amount and the amounts sum to zero
spec balanced(t *Transaction) bool =
  (forall i int {t.Postings[i]} :: 0 <= i && i < len(t.Postings) ==> allocd(t.Postings[i]) && t.Postings[i].Amount != nil) &&
  stated(t.Postings, len(t.Postings)) == 0

func (t *Transaction) AddPosting(p *Posting) (err error)
  lend C10
  props C01 C02 C11
  requires t != nil && p != nil
  requires txOpen(t)
  requires forall i int {t.Postings[i]} :: 0 <= i && i < len(t.Postings) ==> t.Postings[i] != p
  requires p != t.postingWithElidedAmount
  modifies t.Postings, t.postingWithElidedAmount
  use elidedAtPrefix(old(t.Postings), [p], t.postingWithElidedAmount, len(old(t.Postings)))
  ensures refused: (err != nil) == (p.Amount == nil && old(t.postingWithElidedAmount) != nil)
  ensures appended: err == nil ==> t.Postings == old(t.Postings) ++ [p]
  ensures kept: err != nil ==> t.Postings == old(t.Postings)
  ensures open: txOpen(t)
  ensures [C02] elided: err == nil && p.Amount == nil ==> t.postingWithElidedAmount == p
  ensures p.Amount != nil || err != nil ==> t.postingWithElidedAmount == old(t.postingWithElidedAmount)

// math/big: the value of a big.Int (trusted contracts of the library)
uf bigval(v big.Int) int
spec big(z *big.Int) int = bigval(*z)

axiom bigzero: bigval(zero(big.Int)) == 0

extern big.NewInt(x int64) (r *big.Int)
  fresh r
  modifies nothing
  ensures big(r) == x

extern (z *big.Int) Add(x *big.Int, y *big.Int) (r *big.Int)
  modifies *z
  ensures r == z && big(z) == old(big(x)) + old(big(y))

extern (z *big.Int) Sub(x *big.Int, y *big.Int) (r *big.Int)
  modifies *z
  ensures r == z && big(z) == old(big(x)) - old(big(y))

extern (z *big.Int) Neg(x *big.Int) (r *big.Int)
  modifies *z
  ensures r == z && big(z) == 0 - old(big(x))

extern (z *big.Int) SetInt64(x int64) (r *big.Int)
  modifies *z
  ensures r == z && big(z) == x

extern (x *big.Int) Sign() (r int)
  modifies nothing
  ensures r == (big(x) < 0 ? 0 - 1 : big(x) == 0 ? 0 : 1)

extern (x *big.Int) Cmp(y *big.Int) (r int)
  modifies nothing
  ensures r == (big(x) < big(y) ? 0 - 1 : big(x) == big(y) ? 0 : 1)

extern (x *big.Int) IsInt64() (r bool)
  modifies nothing
  ensures r == fits(big(x))

extern (x *big.Int) Int64() (r int64)
  modifies nothing
  ensures fits(big(x)) ==> r == big(x)

// amounts which can be written down and read back
spec displayable(n int) bool = 0 - 9223372036854775807 <= n && n <= 9223372036854775807

func (t *Transaction) Close() (err error)
  props C01 C02
  flag checked
  requires t != nil && txOpen(t)
  modifies Posting.Amount[*] where p: p == t.postingWithElidedAmount
  inv <i int> : 0 <= i && i <= len(t.Postings)
  inv <i int, s int> : s == stated(t.Postings, i)
  inv <i int, s *big.Int> : big(s) == stated(t.Postings, i)
  inv <i int, c string> : c == lastCommodity(t.Postings, i)
  use statedAfter(t.Postings, t.postingWithElidedAmount, 0 - old(stated(t.Postings, len(t.Postings))), len(t.Postings))
  ensures [C01] balanced: err == nil ==> balanced(t)
  ensures [C01,C02] refused: (err == nil) == (t.postingWithElidedAmount == nil ? old(stated(t.Postings, len(t.Postings))) == 0 : displayable(0 - old(stated(t.Postings, len(t.Postings)))))
  ensures [C02] omitted: err == nil && t.postingWithElidedAmount != nil ==> t.postingWithElidedAmount.Amount != nil && t.postingWithElidedAmount.Amount.Quantity == 0 - old(stated(t.Postings, len(t.Postings))) && t.postingWithElidedAmount.Amount.Commodity == old(lastCommodity(t.Postings, len(t.Postings)))
  ensures [C02] statedkept: forall i int {t.Postings[i]} :: 0 <= i && i < len(t.Postings) && t.Postings[i] != t.postingWithElidedAmount ==> t.Postings[i].Amount == old(t.Postings[i].Amount)
  ensures [C02] freshamount: err == nil && t.postingWithElidedAmount != nil ==> fresh(t.postingWithElidedAmount.Amount)
