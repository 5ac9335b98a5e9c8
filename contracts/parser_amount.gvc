package parser

// text and runes: converting runes to text and back gives the runes, invalid ones replaced
uf enc(rs []rune) string
uf dec(s string) []rune
spec validRune(r int) bool = 0 <= r && r < 55296 || 57344 <= r && r <= 1114111

axiom decenc(rs []rune)
  ensures len(dec(enc(rs))) == len(rs)
  ensures forall i int {dec(enc(rs))[i]} {rs[i]} :: 0 <= i && i < len(rs) ==> dec(enc(rs))[i] == (validRune(rs[i]) ? rs[i] : 65533)
  trigger enc(rs)

spec digit(r int) bool = 48 <= r && r <= 57
opaque digits(rs []rune) bool = forall i int {rs[i]} :: 0 <= i && i < len(rs) ==> digit(rs[i])

// the number spelled by the first n digits
spec number(rs []rune, n int) int = n <= 0 ? 0 : number(rs, n - 1) * 10 + (rs[n - 1] - 48)

lemma numberSame(a []rune, b []rune, n int)
  requires 0 <= n && n <= len(a) && len(a) == len(b)
  requires forall i int {a[i]} :: 0 <= i && i < len(a) ==> a[i] == b[i]
  ensures number(a, n) == number(b, n)
  decreases n
  ih numberSame(a, b, n - 1) when n > 0

lemma numberEncoded(rs []rune)
  requires digits(rs) || digits(dec(enc(rs)))
  ensures digits(rs) && digits(dec(enc(rs)))
  ensures number(dec(enc(rs)), len(dec(enc(rs)))) == number(rs, len(rs))
  use numberSame(rs, dec(enc(rs)), len(rs))
  trigger enc(rs)

lemma numberPositive(rs []rune, n int)
  requires digits(rs) && 0 <= n && n <= len(rs)
  ensures number(rs, n) >= 0
  ensures n <= 1 ==> number(rs, n) <= 9
  ensures n <= 2 ==> number(rs, n) <= 99
  decreases n
  ih numberPositive(rs, n - 1) when n > 0
  trigger number(rs, n)

spec pow2(bits int) int = bits == 64 ? 4294967296 * 4294967296 : bits == 63 ? 9223372036854775807 + 1 : bits == 32 ? 4294967296 : bits == 31 ? 2147483648 : bits == 16 ? 65536 : bits == 0 ? 4294967296 * 4294967296 : pow2other(bits)
uf pow2other(bits int) int

extern strconv.ParseUint(s string, base int, bits int) (r uint64, err error)
  modifies nothing
  ensures base == 10 ==> (err == nil) == (len(dec(s)) > 0 && digits(dec(s)) && number(dec(s), len(dec(s))) < pow2(bits))
  ensures base == 10 && err == nil ==> r == number(dec(s), len(dec(s)))

// the position of the first point at or after i, -1 if there is none
spec pointAt(b []rune, i int) int = i >= len(b) ? 0 - 1 : (b[i] == 46 ? i : pointAt(b, i + 1))

lemma pointAtRange(b []rune, i int)
  requires 0 <= i
  ensures pointAt(b, i) == 0 - 1 || i <= pointAt(b, i) && pointAt(b, i) < len(b) && b[pointAt(b, i)] == 46
  decreases len(b) - i
  ih pointAtRange(b, i + 1) when i < len(b)
  trigger pointAt(b, i)

spec signed(cs []rune) bool = len(cs) > 0 && (cs[0] == 43 || cs[0] == 45)
spec unsigned(cs []rune) []rune = signed(cs) ? cs[1:] : cs

spec wholeOf(b []rune) []rune = pointAt(b, 0) == 0 - 1 ? b : b[:pointAt(b, 0)]
spec decimalsOf(b []rune) []rune = pointAt(b, 0) == 0 - 1 ? []rune : b[pointAt(b, 0) + 1:]
spec hundredths(b []rune) int = number(wholeOf(b), len(wholeOf(b))) * 100 + (len(decimalsOf(b)) == 1 ? number(decimalsOf(b), 1) * 10 : number(decimalsOf(b), len(decimalsOf(b))))
spec readable(b []rune) bool =
  len(wholeOf(b)) > 0 && digits(wholeOf(b)) &&
  (pointAt(b, 0) != 0 - 1 ==> 1 <= len(decimalsOf(b)) && len(decimalsOf(b)) <= 2 && digits(decimalsOf(b))) &&
  hundredths(b) <= 9223372036854775807

func parseAmount(content []rune) (r int64, err error)
  lend C11
  props C03
  flag checked
  modifies nothing
  inv <i int, b []rune> : pointAt(b, 0) == pointAt(b, i)
  ensures refused: (err == nil) == readable(unsigned(content))
  ensures exact: err == nil ==> r == (len(content) > 0 && content[0] == 45 ? 0 - hundredths(unsigned(content)) : hundredths(unsigned(content)))
