package parser

// ---- points in time
// instant: nanoseconds on the universal time line; civil: number of the calendar day shown in the time's own zone
uf instant(t time.Time) int
uf civil(t time.Time) int
uf isUTC(t time.Time) bool
uf dayNumber(y int, m int, d int) int
uf yearAt(n int) int
uf monthAt(n int) int
uf dayAt(n int) int
uf validDate(y int, m int, d int) bool

// the calendar: every day has a year, month and day of the month, which name it;
// neighbouring days differ in the day of the month
axiom calendar(n int)
  ensures validDate(yearAt(n), monthAt(n), dayAt(n)) && dayNumber(yearAt(n), monthAt(n), dayAt(n)) == n
  trigger dayNumber(yearAt(n), monthAt(n), dayAt(n))
axiom firsts(y int, m int)
  requires 1 <= m && m <= 12
  ensures validDate(y, m, 1)
  trigger validDate(y, m, 1)
axiom neighbours(n int, k int)
  requires n - k == 1 || k - n == 1
  ensures dayAt(n) != dayAt(k)
  trigger dayAt(n), dayAt(k)

spec midnight(t time.Time) bool = isUTC(t) && instant(t) == 86400000000000 * civil(t)

extern (t time.Time) Year() (r int)
  flag pure
  ensures r == yearAt(civil(t))
extern (t time.Time) Month() (r time.Month)
  flag pure
  ensures r == monthAt(civil(t))
extern (t time.Time) Day() (r int)
  flag pure
  ensures r == dayAt(civil(t))
extern (t time.Time) Equal(u time.Time) (r bool)
  flag pure
  ensures r == (instant(t) == instant(u))
extern (t time.Time) Before(u time.Time) (r bool)
  flag pure
  ensures r == (instant(t) < instant(u))
extern (t time.Time) After(u time.Time) (r bool)
  flag pure
  ensures r == (instant(t) > instant(u))
extern (t time.Time) AddDate(y int, m int, d int) (r time.Time)
  flag pure
  ensures y == 0 && m == 0 && midnight(t) ==> midnight(r) && civil(r) == civil(t) + d
extern time.Date(y int, m time.Month, d int, h int, mi int, s int, ns int, loc *time.Location) (r time.Time)
  flag pure
  ensures loc == time.UTC && h == 0 && mi == 0 && s == 0 && ns == 0 && validDate(y, m, d) ==> midnight(r) && civil(r) == dayNumber(y, m, d)
  ensures h == 0 && mi == 0 && s == 0 && ns == 0 && validDate(y, m, d) ==> civil(r) - dayNumber(y, m, d) <= 1 && dayNumber(y, m, d) - civil(r) <= 1

// the clock: each reading is remembered; the year does not change while the program runs
ghost now time.Time
uf thisYear() int
extern time.Now() (r time.Time)
  modifies now
  ensures r == now && yearAt(civil(r)) == thisYear() && 1000 <= thisYear() && thisYear() <= 9999


// ---- option dates

spec dig(s string, i int) bool = 48 <= s[i] && s[i] <= 57
spec num2(s string, i int) int = (s[i] - 48) * 10 + (s[i + 1] - 48)
spec num4(s string, i int) int = num2(s, i) * 100 + num2(s, i + 2)
spec dig2(s string, i int) bool = dig(s, i) && dig(s, i + 1)
spec dig4(s string, i int) bool = dig2(s, i) && dig2(s, i + 2)

// the forms of a date: yyyy, yyyy-mm, mm-dd, yyyy-mm-dd with a separator
opaque yText(s string) bool = len(s) == 4 && dig4(s, 0)
opaque ymText(s string, c int) bool = len(s) == 7 && dig4(s, 0) && s[4] == c && dig2(s, 5) && 1 <= num2(s, 5) && num2(s, 5) <= 12
opaque ymdText(s string, c int) bool = len(s) == 10 && dig4(s, 0) && s[4] == c && dig2(s, 5) && s[7] == c && dig2(s, 8) && validDate(num4(s, 0), num2(s, 5), num2(s, 8))
opaque mdText(s string, c int, y int) bool = len(s) == 5 && dig2(s, 0) && s[2] == c && dig2(s, 3) && validDate(y, num2(s, 0), num2(s, 3))

spec smartOK(s string) bool = yText(s) ||
  ymText(s, '/') || ymText(s, '.') || ymText(s, '-') ||
  mdText(s, '/', thisYear()) || mdText(s, '.', thisYear()) || mdText(s, '-', thisYear()) ||
  ymdText(s, '/') || ymdText(s, '.') || ymdText(s, '-')
// the day a date spells
spec smartDay(s string) int = len(s) == 4 ? dayNumber(num4(s, 0), 1, 1) :
  len(s) == 7 ? dayNumber(num4(s, 0), num2(s, 5), 1) :
  len(s) == 5 ? dayNumber(thisYear(), num2(s, 0), num2(s, 3)) :
  dayNumber(num4(s, 0), num2(s, 5), num2(s, 8))

spec ymLayout(l string) int = l == "2006/01" ? '/' : l == "2006.01" ? '.' : l == "2006-01" ? '-' : 0
spec ymdLayout(l string) int = l == "2006/01/02" ? '/' : l == "2006.01.02" ? '.' : l == "2006-01-02" ? '-' : 0
extern time.Parse(layout string, s string) (t time.Time, err error)
  flag pure
  ensures ymLayout(layout) != 0 ==> (err == nil) == ymText(s, ymLayout(layout))
  ensures ymLayout(layout) != 0 && err == nil ==> midnight(t) && civil(t) == dayNumber(num4(s, 0), num2(s, 5), 1)
  ensures ymdLayout(layout) != 0 ==> (err == nil) == ymdText(s, ymdLayout(layout))
  ensures ymdLayout(layout) != 0 && err == nil ==> midnight(t) && civil(t) == dayNumber(num4(s, 0), num2(s, 5), num2(s, 8))

// the first place at or after i where s has the byte c, len(s) if there is none
uf nextByte(s string, c int, i int) int
axiom nextByteIs(s string, c int, i int)
  requires 0 <= i && i <= len(s)
  ensures i <= nextByte(s, c, i) && nextByte(s, c, i) <= len(s)
  ensures nextByte(s, c, i) < len(s) ==> s[nextByte(s, c, i)] == c
  ensures forall j int {s[j]} :: i <= j && j < nextByte(s, c, i) ==> s[j] != c
  trigger nextByte(s, c, i)
spec pieces(s string, c int, i int) int = nextByte(s, c, i) >= len(s) ? 1 : 1 + pieces(s, c, nextByte(s, c, i) + 1)

extern strings.IndexRune(s string, c rune) (r int)
  flag pure
  ensures 0 <= c && c < 128 ==> r == (nextByte(s, c, 0) < len(s) ? nextByte(s, c, 0) : 0 - 1)

// four digits as a number, in bytes and in runes
axiom fourDigits(s string)
  requires len(s) == 4
  ensures yText(s) == (len(dec(s)) > 0 && digits(dec(s)))
  ensures yText(s) ==> number(dec(s), len(dec(s))) == num4(s, 0)
  trigger yText(s)
axiom itoaFour(n int)
  requires 1000 <= n && n <= 9999
  ensures len(itoa(n)) == 4 && dig4(itoa(n), 0) && num4(itoa(n), 0) == n
  trigger itoa(n)

func localMidnight(t time.Time) (r time.Time)
  props C18 C08
  flag helper never:journal.Account
  requires midnight(t)
  modifies nothing
  ensures civil(r) == civil(t)

func parseYear(date string) (t time.Time, err error)
  props C18 C08
  flag helper never:journal.Account
  modifies nothing
  ensures ok: (err == nil) == yText(date)
  ensures day: err == nil ==> civil(t) == dayNumber(num4(date, 0), 1, 1)

func parseYearMonth(date string, separator rune) (t time.Time, err error)
  props C18 C08
  flag helper never:journal.Account
  modifies nothing
  ensures ok: (err == nil) == ((separator == '/' || separator == '.' || separator == '-') && ymText(date, separator))
  ensures day: err == nil ==> civil(t) == dayNumber(num4(date, 0), num2(date, 5), 1)

func parseMonthDay(date string, separator rune) (t time.Time, err error)
  props C18 C08
  flag helper never:journal.Account
  modifies now
  ensures ok: (err == nil) == ((separator == '/' || separator == '.' || separator == '-') && mdText(date, separator, thisYear()))
  ensures day: err == nil ==> civil(t) == dayNumber(thisYear(), num2(date, 0), num2(date, 3))

func parseYearMonthDay(date string, separator rune) (t time.Time, err error)
  props C18 C08
  flag helper never:journal.Account
  modifies nothing
  ensures ok: (err == nil) == ((separator == '/' || separator == '.' || separator == '-') && ymdText(date, separator))
  ensures day: err == nil ==> civil(t) == dayNumber(num4(date, 0), num2(date, 5), num2(date, 8))

func ParseSmartDate(date string) (t time.Time, err error)
  props C18 C08
  flag never:journal.Account
  modifies now
  ensures ok: (err == nil) == smartOK(date)
  ensures day: err == nil ==> civil(t) == smartDay(date)

// the text of a date as layout 2006-01-02 spells it
uf dateText(n int) string
extern (t time.Time) Format(layout string) (r string)
  flag pure
  ensures layout == "2006-01-02" ==> r == dateText(civil(t))
