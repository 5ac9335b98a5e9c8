package journal

// ---- the printed form of an entry
spec stateMark(s TransactionState) string = s == UnclearedState ? "!" : (s == ClearedState ? "*" : " ")
spec commentLines(cs []string, indent string, n int) string = n <= 0 ? "" : commentLines(cs, indent, n - 1) ++ "\n" ++ indent ++ "; " ++ cs[n - 1]
opaque postingText(p *Posting) string = p.AccountPath ++ "    " ++ p.Amount.Commodity ++ money(p.Amount.Quantity) ++ commentLines(p.Comments, "      ", len(p.Comments))
spec postingLines(ps []*Posting, n int) string = n <= 0 ? "" : postingLines(ps, n - 1) ++ "\n    " ++ postingText(ps[n - 1])
opaque transactionText(t Transaction) string =
  dateText(civil(t.Date)) ++ " " ++ stateMark(t.State) ++ " " ++ t.Payee ++ (len(t.HeaderNote) > 0 ? "    ; " ++ t.HeaderNote : "")
  ++ commentLines(t.Notes, "    ", len(t.Notes)) ++ postingLines(t.Postings, len(t.Postings)) ++ "\n"

func StateToString(s TransactionState) (r string)
  props C16 C17
  modifies nothing
  ensures exact: r == stateMark(s)

func (p *Posting) String() (r string)
  props C16 C17
  requires p != nil && p.Amount != nil
  modifies nothing
  inv <s string, i int> : s == p.AccountPath ++ "    " ++ p.Amount.Commodity ++ money(p.Amount.Quantity) ++ commentLines(p.Comments, "      ", i)
  ensures exact: r == postingText(p)

func (t Transaction) String() (r string)
  props C16 C17
  requires forall i int {t.Postings[i]} :: 0 <= i && i < len(t.Postings) ==> t.Postings[i] != nil && t.Postings[i].Amount != nil
  modifies nothing
  inv <s string, i int> : s == dateText(civil(t.Date)) ++ " " ++ stateMark(t.State) ++ " " ++ t.Payee ++ (len(t.HeaderNote) > 0 ? "    ; " ++ t.HeaderNote : "") ++ commentLines(t.Notes, "    ", i)
  inv <s string, i int> : s == dateText(civil(t.Date)) ++ " " ++ stateMark(t.State) ++ " " ++ t.Payee ++ (len(t.HeaderNote) > 0 ? "    ; " ++ t.HeaderNote : "") ++ commentLines(t.Notes, "    ", len(t.Notes)) ++ postingLines(t.Postings, i)
  ensures exact: r == transactionText(t)
