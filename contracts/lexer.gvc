package parser

// ---- bytes of a line and the runes they spell
uf runeOf(b []byte) int
uf widthOf(b []byte) int
uf spaceRune(r int) bool
uf numberRune(r int) bool
uf letterRune(r int) bool

axiom runeAndWidth(b []byte)
  ensures len(b) > 0 ==> 1 <= widthOf(b) && widthOf(b) <= len(b) && validRune(runeOf(b)) && (runeOf(b) < 128 ==> widthOf(b) == 1)
  trigger widthOf(b)

axiom blanks: spaceRune(32) && spaceRune(9) && !spaceRune(59) && !spaceRune(35) && !spaceRune(33) && !spaceRune(42)

extern utf8.DecodeRune(b []byte) (r rune, size int)
  modifies nothing
  ensures len(b) > 0 ==> r == runeOf(b) && size == widthOf(b)

extern unicode.IsSpace(r rune) (y bool)
  modifies nothing
  ensures y == spaceRune(r)

extern unicode.IsNumber(r rune) (y bool)
  modifies nothing
  ensures y == numberRune(r)

extern unicode.IsLetter(r rune) (y bool)
  modifies nothing
  ensures y == letterRune(r)

spec runeHere(b []byte, i int) int = i >= len(b) ? 0 - 1 : runeOf(b[i:])
spec afterHere(b []byte, i int) int = i >= len(b) ? i : i + widthOf(b[i:])
spec markRune(r int) bool = r == 59 || r == 35

// up to a blank
spec wordText(b []byte, i int) []rune = i >= len(b) || runeHere(b, i) == 32 ? []rune : [runeHere(b, i)] ++ wordText(b, afterHere(b, i))
spec wordEnd(b []byte, i int) int = i >= len(b) || runeHere(b, i) == 32 ? i : wordEnd(b, afterHere(b, i))

// everything
spec lineText(b []byte, i int) []rune = i >= len(b) ? []rune : [runeHere(b, i)] ++ lineText(b, afterHere(b, i))

// blanks of any kind
spec blankCount(b []byte, i int) int = i >= len(b) || !spaceRune(runeHere(b, i)) ? 0 : (runeHere(b, i) == 9 ? 2 : runeHere(b, i) == 32 ? 1 : 0) + blankCount(b, afterHere(b, i))
spec blankEnd(b []byte, i int) int = i >= len(b) || !spaceRune(runeHere(b, i)) ? i : blankEnd(b, afterHere(b, i))

// up to a tab, two blanks or a comment mark
spec fieldStops(b []byte, i int) bool = i >= len(b) || markRune(runeHere(b, i)) || runeHere(b, i) == 9 || runeHere(b, i) == 32 && runeHere(b, afterHere(b, i)) == 32
spec fieldText(b []byte, i int) []rune = fieldStops(b, i) ? []rune : [runeHere(b, i)] ++ fieldText(b, afterHere(b, i))
spec fieldEnd(b []byte, i int) int = fieldStops(b, i) ? (i >= len(b) || markRune(runeHere(b, i)) ? i : afterHere(b, i)) : fieldEnd(b, afterHere(b, i))
spec endTrimmed(rs []rune) []rune = len(rs) > 0 && rs[len(rs) - 1] == 32 ? rs[:len(rs) - 1] : rs

// up to a tab or two blanks, a blank at its end left out
spec blankBeforeEnd(b []byte, i int) bool = runeHere(b, i) == 32 && (afterHere(b, i) >= len(b) || runeHere(b, afterHere(b, i)) == 9 || runeHere(b, afterHere(b, i)) == 32)
spec nameText(b []byte, i int) []rune = i >= len(b) || runeHere(b, i) == 9 || blankBeforeEnd(b, i) ? []rune : [runeHere(b, i)] ++ nameText(b, afterHere(b, i))
spec nameEnd(b []byte, i int) int = i >= len(b) || runeHere(b, i) == 9 || runeHere(b, i) == 32 && runeHere(b, afterHere(b, i)) == 32 ? i : nameEnd(b, afterHere(b, i))

// up to a number, a sign or a blank
spec unitStops(b []byte, i int) bool = i >= len(b) || numberRune(runeHere(b, i)) || runeHere(b, i) == 45 || runeHere(b, i) == 43 || runeHere(b, i) == 32 || runeHere(b, i) == 9
spec unitText(b []byte, i int) []rune = unitStops(b, i) ? []rune : [runeHere(b, i)] ++ unitText(b, afterHere(b, i))
spec unitEnd(b []byte, i int) int = unitStops(b, i) ? i : unitEnd(b, afterHere(b, i))

spec firstInk(rs []rune, i int) int = i >= len(rs) || rs[i] != 32 ? i : firstInk(rs, i + 1)
spec startTrimmed(rs []rune) []rune = rs[firstInk(rs, 0):]

lemma firstInkRange(rs []rune, i int)
  requires 0 <= i && i <= len(rs)
  ensures i <= firstInk(rs, i) && firstInk(rs, i) <= len(rs)
  decreases len(rs) - i
  ih firstInkRange(rs, i + 1) when i < len(rs)
  trigger firstInk(rs, i)

spec inLine(l *lexer) bool = l != nil && 0 <= l.pos && l.pos <= len(l.input)

// a loop may look at a rune before it decides: the place is then one rune back
spec readAhead(l *lexer, start int) bool = 0 <= l.width && l.width <= l.pos - start && l.pos == afterHere(l.input, l.pos - l.width)

func (l *lexer) takeUntilSpace() (r []rune)
  props C10 C11 C17
  flag helper
  lend C10 C11 C13 C17 C19
  requires inLine(l)
  modifies l.pos, l.width
  inv inLine(l)
  measure len(l.input) - l.pos
  inv <rs []rune> : rs ++ wordText(l.input, l.pos) == wordText(l.input, old(l.pos))
  inv wordEnd(l.input, l.pos) == wordEnd(l.input, old(l.pos))
  alt <r rune> : readAhead(l, old(l.pos)) && r == runeHere(l.input, l.pos - l.width)
  measure len(l.input) - (l.pos - l.width)
  alt <rs []rune> : rs ++ wordText(l.input, l.pos - l.width) == wordText(l.input, old(l.pos))
  alt <r rune> : wordEnd(l.input, l.pos - l.width) == wordEnd(l.input, old(l.pos))
  ensures text: r == wordText(l.input, old(l.pos))
  ensures end: l.pos == wordEnd(l.input, old(l.pos))
  ensures in: inLine(l)

func trimSpaceStart(runes []rune) (r []rune)
  props C10 C11 C17
  flag helper
  lend C10 C11 C13 C17 C19
  modifies nothing
  inv <i int> : 0 <= i && i <= len(runes) && firstInk(runes, i) == firstInk(runes, 0)
  ensures text: r == startTrimmed(runes)

func (l *lexer) takeToNextLine() (r []rune)
  props C10 C11 C17
  flag helper
  lend C10 C11 C13 C17 C19
  requires inLine(l)
  modifies l.pos, l.width
  inv inLine(l)
  measure len(l.input) - l.pos
  inv <rs []rune> : rs ++ lineText(l.input, l.pos) == lineText(l.input, old(l.pos))
  alt <r rune> : readAhead(l, old(l.pos)) && r == runeHere(l.input, l.pos - l.width)
  measure len(l.input) - (l.pos - l.width)
  alt <rs []rune> : rs ++ lineText(l.input, l.pos - l.width) == lineText(l.input, old(l.pos))
  ensures text: r == startTrimmed(lineText(l.input, old(l.pos)))
  ensures end: l.pos == len(l.input)

func (l *lexer) consumeSpace() (n int)
  props C10 C11 C17
  flag helper
  lend C10 C11 C13 C17 C19
  requires inLine(l)
  modifies l.pos, l.width
  inv inLine(l)
  measure len(l.input) - l.pos
  inv <c int> : c + blankCount(l.input, l.pos) == blankCount(l.input, old(l.pos))
  inv blankEnd(l.input, l.pos) == blankEnd(l.input, old(l.pos))
  alt <r rune> : readAhead(l, old(l.pos)) && r == runeHere(l.input, l.pos - l.width)
  measure len(l.input) - (l.pos - l.width)
  alt <c int> : c + blankCount(l.input, l.pos - l.width) == blankCount(l.input, old(l.pos))
  alt <r rune> : blankEnd(l.input, l.pos - l.width) == blankEnd(l.input, old(l.pos))
  ensures count: n == blankCount(l.input, old(l.pos))
  ensures end: l.pos == blankEnd(l.input, old(l.pos))
  ensures in: inLine(l)

func (l *lexer) lexCommodity() (r []rune)
  props C10 C11 C17
  flag helper
  lend C10 C11 C13 C17 C19
  fresh r
  requires inLine(l)
  modifies l.pos, l.width
  inv inLine(l)
  measure len(l.input) - l.pos
  inv <rs []rune> : rs ++ unitText(l.input, l.pos) == unitText(l.input, old(l.pos))
  inv unitEnd(l.input, l.pos) == unitEnd(l.input, old(l.pos))
  alt <r rune> : readAhead(l, old(l.pos)) && r == runeHere(l.input, l.pos - l.width)
  measure len(l.input) - (l.pos - l.width)
  alt <rs []rune> : rs ++ unitText(l.input, l.pos - l.width) == unitText(l.input, old(l.pos))
  alt <r rune> : unitEnd(l.input, l.pos - l.width) == unitEnd(l.input, old(l.pos))
  ensures text: r == unitText(l.input, old(l.pos))
  ensures end: l.pos == unitEnd(l.input, old(l.pos))
  ensures in: inLine(l)

func (l *lexer) takeToTabOrNextLineOrComment() (r []rune)
  props C10 C11 C17
  flag helper
  lend C10 C11 C13 C17 C19
  fresh r
  requires inLine(l)
  modifies l.pos, l.width
  inv inLine(l)
  measure len(l.input) - l.pos
  inv <rs []rune> : rs ++ fieldText(l.input, l.pos) == fieldText(l.input, old(l.pos))
  inv <rs []rune> : len(rs) > 0 && rs[len(rs) - 1] == 32 ==> runeHere(l.input, l.pos) != 32
  inv fieldEnd(l.input, l.pos) == fieldEnd(l.input, old(l.pos))
  alt <r rune> : readAhead(l, old(l.pos)) && r == runeHere(l.input, l.pos - l.width)
  measure len(l.input) - (l.pos - l.width)
  alt <rs []rune> : rs ++ fieldText(l.input, l.pos - l.width) == fieldText(l.input, old(l.pos))
  alt <r rune> : fieldEnd(l.input, l.pos - l.width) == fieldEnd(l.input, old(l.pos))
  alt <rs []rune> : len(rs) > 0 && rs[len(rs) - 1] == 32 ==> runeHere(l.input, l.pos - l.width) != 32
  ensures text: r == endTrimmed(fieldText(l.input, old(l.pos)))
  ensures end: l.pos == fieldEnd(l.input, old(l.pos))
  ensures in: inLine(l)

func (l *lexer) takeUntilMoreThanOneSpace() (r []rune)
  props C10 C11 C17
  flag helper
  lend C10 C11 C13 C17 C19
  fresh r
  requires inLine(l)
  modifies l.pos, l.width
  inv inLine(l) && old(l.pos) <= l.pos
  measure len(l.input) - l.pos
  inv <p int, rs []rune> : p != 32 ==> rs ++ nameText(l.input, l.pos) == nameText(l.input, old(l.pos))
  inv <p int, rs []rune> : p == 32 ==> old(l.pos) < l.pos && len(rs) > 0 && rs[len(rs) - 1] == 32 && runeHere(l.input, l.pos - 1) == 32 && rs[:len(rs) - 1] ++ nameText(l.input, l.pos - 1) == nameText(l.input, old(l.pos))
  inv <p int> : nameEnd(l.input, p == 32 ? l.pos - 1 : l.pos) == nameEnd(l.input, old(l.pos))
  alt <q bool, rs []rune> : !q ==> rs ++ nameText(l.input, l.pos) == nameText(l.input, old(l.pos))
  alt <q bool, rs []rune> : q ==> old(l.pos) < l.pos && len(rs) > 0 && rs[len(rs) - 1] == 32 && runeHere(l.input, l.pos - 1) == 32 && rs[:len(rs) - 1] ++ nameText(l.input, l.pos - 1) == nameText(l.input, old(l.pos))
  alt <q bool> : nameEnd(l.input, q ? l.pos - 1 : l.pos) == nameEnd(l.input, old(l.pos))
  ensures text: r == nameText(l.input, old(l.pos))
  ensures end: l.pos == nameEnd(l.input, old(l.pos))
  ensures in: inLine(l)

// ---- what the lexer hands over for a line
ghost itemKinds []int
ghost itemTexts [][]rune
ghost itemAnswer error

funcval items(t parser.itemType, content []rune) (err error)
  modifies itemKinds
  modifies itemTexts
  modifies itemAnswer
  ensures given: itemKinds == old(itemKinds) ++ [t] && itemTexts == old(itemTexts) ++ [content] && err == itemAnswer

spec markedAt(b []byte, i int) bool = runeHere(b, i) == 33 || runeHere(b, i) == 42
spec markPlace(b []byte, i int) int = blankEnd(b, wordEnd(b, i))
spec payeePlace(b []byte, i int) int = markedAt(b, markPlace(b, i)) ? blankEnd(b, afterHere(b, markPlace(b, i))) : markPlace(b, i)
spec payeeText(b []byte, i int) []rune = endTrimmed(fieldText(b, payeePlace(b, i)))
spec restText(b []byte, i int) []rune = startTrimmed(lineText(b, fieldEnd(b, payeePlace(b, i))))
spec unmarked(rs []rune) []rune = len(rs) > 0 && markRune(rs[0]) ? rs[1:] : rs
spec noteText(b []byte, i int) []rune = startTrimmed(unmarked(restText(b, i)))

spec headerKinds(b []byte, i int) []int =
  [dateItem] ++ (markedAt(b, markPlace(b, i)) ? [stateItem] : []int) ++ [payeeItem] ++ (len(restText(b, i)) > 0 ? [transactionHeaderCommentItem] : []int)
spec headerTexts(b []byte, i int) [][]rune =
  [wordText(b, i)] ++ (markedAt(b, markPlace(b, i)) ? [[runeHere(b, markPlace(b, i))]] : [][]rune) ++ [payeeText(b, i)] ++ (len(restText(b, i)) > 0 ? [noteText(b, i)] : [][]rune)

func (l *lexer) lexTransactionHeader() (err error)
  props C10 C17
  lend C10 C11 C13 C17 C19
  requires inLine(l) && l.parser != nil
  modifies l.pos, l.width
  modifies itemKinds
  modifies itemTexts
  modifies itemAnswer
  ensures kinds: err == nil ==> itemKinds == old(itemKinds) ++ headerKinds(l.input, old(l.pos))
  ensures texts: err == nil ==> itemTexts == old(itemTexts) ++ headerTexts(l.input, old(l.pos))
  ensures stopped: err != nil ==> err == itemAnswer

// ---- posting and comment lines; i is behind the first blank
spec inkPlace(b []byte, i int) int = blankEnd(b, i)
spec afterName(b []byte, i int) int = blankEnd(b, nameEnd(b, inkPlace(b, i)))
spec bareName(b []byte, i int) bool = afterName(b, i) >= len(b) || markRune(runeHere(b, afterName(b, i)))
spec unitPlace(b []byte, i int) int = afterName(b, i)
spec unitWritten(b []byte, i int) []rune =
  blankCount(b, unitEnd(b, unitPlace(b, i))) > 0 ? unitText(b, unitPlace(b, i)) ++ [32] : unitText(b, unitPlace(b, i))
spec amountWritten(b []byte, i int) []rune = endTrimmed(fieldText(b, blankEnd(b, unitEnd(b, unitPlace(b, i)))))
spec gapWide(b []byte, i int) bool = blankCount(b, nameEnd(b, inkPlace(b, i))) >= 2

spec lineKinds(b []byte, i int) []int =
  inkPlace(b, i) >= len(b) ? []int :
  markRune(runeHere(b, inkPlace(b, i))) ? [commentItem] :
  bareName(b, i) || !gapWide(b, i) ? [accountItem] : [accountItem] ++ [commodityItem] ++ [amountItem]
spec lineTexts(b []byte, i int) [][]rune =
  inkPlace(b, i) >= len(b) ? [][]rune :
  markRune(runeHere(b, inkPlace(b, i))) ? [startTrimmed(lineText(b, afterHere(b, inkPlace(b, i))))] :
  bareName(b, i) || !gapWide(b, i) ? [nameText(b, inkPlace(b, i))] : [nameText(b, inkPlace(b, i))] ++ [unitWritten(b, i)] ++ [amountWritten(b, i)]
// a line of blanks, a comment, or an account name
spec lineReadable(b []byte, i int) bool = inkPlace(b, i) >= len(b) || markRune(runeHere(b, inkPlace(b, i))) || letterRune(runeHere(b, inkPlace(b, i)))

func (l *lexer) lexPosting() (err error)
  props C11 C17
  lend C10 C11 C13 C17 C19
  requires inLine(l) && l.parser != nil
  modifies l.pos, l.width
  modifies itemKinds
  modifies itemTexts
  modifies itemAnswer
  ensures refused: !lineReadable(l.input, old(l.pos)) ==> err != nil && itemKinds == old(itemKinds)
  ensures kinds: err == nil ==> itemKinds == old(itemKinds) ++ lineKinds(l.input, old(l.pos))
  ensures texts: err == nil ==> itemTexts == old(itemTexts) ++ lineTexts(l.input, old(l.pos))

// ---- which lines are headers, postings, comments, directives
func (l *lexer) lexLine() (err error)
  props C10 C11 C17
  lend C10 C11 C13 C17 C19
  requires l != nil && l.pos == 0 && l.parser != nil
  modifies l.pos, l.width
  modifies itemKinds
  modifies itemTexts
  modifies itemAnswer
  ensures empty: len(l.input) == 0 && err == nil ==> itemKinds == old(itemKinds) ++ [emptyLineItem]
  ensures comment: markRune(runeHere(l.input, 0)) ==> err == nil && itemKinds == old(itemKinds)
  ensures [C10] header: numberRune(runeHere(l.input, 0)) && err == nil ==> itemKinds == old(itemKinds) ++ headerKinds(l.input, 0) && itemTexts == old(itemTexts) ++ headerTexts(l.input, 0)
  ensures [C11] posting: isIndented(l.input) && err == nil ==> itemKinds == old(itemKinds) ++ lineKinds(l.input, 1) && itemTexts == old(itemTexts) ++ lineTexts(l.input, 1)
  ensures [C11] badposting: isIndented(l.input) && !lineReadable(l.input, 1) ==> err != nil && itemKinds == old(itemKinds)
  ensures [C11] other: len(l.input) > 0 && !markRune(runeHere(l.input, 0)) && !numberRune(runeHere(l.input, 0)) && !isIndented(l.input) && runeHere(l.input, 0) != 105 && runeHere(l.input, 0) != 126 ==> err != nil && itemKinds == old(itemKinds)

spec isIndented(b []byte) bool = runeHere(b, 0) == 9 || runeHere(b, 0) == 32 && runeHere(b, 1) == 32

axiom numerals: !numberRune(0 - 1) && !numberRune(9) && !numberRune(32) && !numberRune(59) && !numberRune(35) && !numberRune(105) && !numberRune(126)
axiom letters: !letterRune(0 - 1) && !letterRune(9) && !letterRune(32) && !letterRune(59) && !letterRune(35)

uf dirOf(path string) string
extern filepath.Split(path string) (dir string, file string)
  modifies nothing
  ensures dir == dirOf(path)

func (l *lexer) lexIncludeDirective() (err error)
  props C10 C11 C13 C17
  lend C10 C11 C13 C17 C19
  requires inLine(l) && l.parser != nil
  modifies l.pos, l.width
  modifies itemKinds
  modifies itemTexts
  modifies itemAnswer
  ensures items: err == nil ==> len(itemKinds) == len(old(itemKinds)) + 1 && itemKinds[len(old(itemKinds))] == includeItem
  ensures [C13] resolved: err == nil ==> itemTexts == old(itemTexts) ++ [dec(dirOf(l.locationHint)) ++ endTrimmed(fieldText(l.input, blankEnd(l.input, wordEnd(l.input, old(l.pos)))))]

func (l *lexer) lexPeriodTransactionHeader() (err error)
  props C10 C11 C17
  lend C10 C11 C13 C17 C19
  requires inLine(l) && l.parser != nil
  modifies l.pos, l.width
  modifies itemKinds
  modifies itemTexts
  modifies itemAnswer
  ensures period: blankCount(l.input, old(l.pos)) == 0 ==> err != nil && itemKinds == old(itemKinds)
  ensures items: err == nil ==> itemKinds == old(itemKinds) ++ [periodItem] && itemTexts == old(itemTexts) ++ [endTrimmed(fieldText(l.input, blankEnd(l.input, old(l.pos))))]
