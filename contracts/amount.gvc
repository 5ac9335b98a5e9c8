package journal

// decimal texts of integers (fmt's %d) and zero padding (%02d)
uf itoa(n int) string
uf pad0(w int, s string) string

axiom pad0_two(n int)
  requires 0 <= n && n < 100
  ensures pad0(2, itoa(n)) == itoa(n / 10) ++ itoa(n % 10)
  trigger pad0(2, itoa(n))

spec iabs(n int) int = n < 0 ? 0 - n : n

// the text of an amount: sign, whole units, point, two digits
spec money(q int) string = (q < 0 ? "-" : "") ++ itoa(iabs(q) / 100) ++ "." ++ pad0(2, itoa(iabs(q) % 100))

func (a Amount) DisplayableQuantity(withCommodity bool) (r string)
  props C04
  lend C05 C07 C14 C15 C16 C17 C21
  flag checked norepo
  modifies nothing
  ensures exact: r == (withCommodity ? a.Commodity : "") ++ money(a.Quantity)

func (a Amount) String() (r string)
  props C04
  flag norepo
  lend C05 C07 C14 C15 C16 C17 C21
  modifies nothing
  ensures exact: r == money(a.Quantity)

func NewAmount(c string, q int64) (r *Amount)
  lend C10 C11
  props C01 C02 C05 C14
  modifies nothing
  ensures fresh(r) && r.Commodity == c && r.Quantity == q

spec fits(n int) bool = 0 - 9223372036854775807 - 1 <= n && n <= 9223372036854775807

func (a *Amount) Add(other Amount) (err error)
  props C05 C14 C15
  flag checked norepo
  requires a != nil
  modifies a.Quantity, out
  ensures refused: (err == nil) == fits(old(a.Quantity) + other.Quantity)
  ensures [C15] silent: a.Commodity == other.Commodity ==> out == old(out)
  ensures sum: err == nil ==> a.Quantity == old(a.Quantity) + other.Quantity
  ensures kept: err != nil ==> a.Quantity == old(a.Quantity)

func (a *Amount) Subtract(other Amount) (err error)
  props C14
  flag checked norepo
  requires a != nil
  modifies a.Quantity, out
  ensures refused: (err == nil) == fits(old(a.Quantity) - other.Quantity)
  ensures difference: err == nil ==> a.Quantity == old(a.Quantity) - other.Quantity
  ensures kept: err != nil ==> a.Quantity == old(a.Quantity)
