package journal

// ---- lists of texts

// s is among the texts
spec among(ss []string, s string, n int) bool = n <= 0 ? false : ss[n - 1] == s || among(ss, s, n - 1)
spec whereIs(ss []string, s string, n int) int = n <= 0 ? -1 : (ss[n - 1] == s ? n - 1 : whereIs(ss, s, n - 1))
lemma amongWhere(ss []string, s string, n int)
  requires among(ss, s, n)
  ensures 0 <= whereIs(ss, s, n) && whereIs(ss, s, n) < n && ss[whereIs(ss, s, n)] == s
  decreases n
  ih amongWhere(ss, s, n - 1) when ss[n - 1] != s
  trigger among(ss, s, n)
lemma amongAt(ss []string, s string, i int, n int)
  requires 0 <= i && i < n && ss[i] == s
  ensures among(ss, s, n)
  decreases n
  ih amongAt(ss, s, i, n - 1) when i < n - 1
  trigger among(ss, s, n), ss[i]
opaque distinctTexts(ss []string) bool = forall i int, j int {ss[i], ss[j]} :: 0 <= i && i < len(ss) && 0 <= j && j < len(ss) && i != j ==> ss[i] != ss[j]
lemma amongMore(ss []string, x string, s string, n int)
  requires 0 <= n && n <= len(ss)
  ensures among(ss ++ [x], s, n) == among(ss, s, n)
  decreases n
  ih amongMore(ss, x, s, n - 1) when n > 0
  trigger among(ss ++ [x], s, n)
lemma distinctNotBefore(ss []string, i int)
  requires distinctTexts(ss) && 0 <= i && i < len(ss)
  ensures !among(ss, ss[i], i)
  trigger among(ss, ss[i], i)
lemma distinctTextsMore(ss []string, x string)
  requires distinctTexts(ss) && !among(ss, x, len(ss))
  use forall i int {ss[i]} :: amongAt(ss, ss[i], i, len(ss))
  ensures distinctTexts(ss ++ [x])
  trigger distinctTexts(ss ++ [x])
spec ascending(ss []string) bool = forall i int, j int {ss[i], ss[j]} :: 0 <= i && i < j && j < len(ss) ==> !strlt(ss[j], ss[i])

// the keys of a finite set of texts in ascending order; a set has exactly one such list
uf inOrder(s set[string]) []string
axiom inOrderIs(ss []string, s set[string])
  requires distinctTexts(ss) && ascending(ss)
  requires forall k string {among(ss, k, len(ss))} {s[k]} :: among(ss, k, len(ss)) == s[k]
  ensures ss == inOrder(s)
  trigger distinctTexts(ss), inOrder(s)

func (a *Account) SortedChildNames() (r []string)
  props C21 C15
  requires a != nil && a.Children != nil
  flag never:journal.Account
  modifies sortPerm
  modifies sortInv
  inv <seen set[string], ss []string> : forall s string {seen[s]} {among(ss, s, len(ss))} :: among(ss, s, len(ss)) == seen[s]
  inv <ss []string> : distinctTexts(ss)
  ensures set: forall s string {among(r, s, len(r))} :: among(r, s, len(r)) == has(a.Children, s)
  ensures names: forall i int {r[i]} :: 0 <= i && i < len(r) ==> has(a.Children, r[i])
  use forall i int {r[i]} :: amongAt(r, r[i], i, len(r))
  ensures once: distinctTexts(r)
  ensures some: len(a.Children) > 0 ==> len(r) > 0
  use forall s string {has(a.Children, s)} :: amongWhere(r, s, len(r))
  ensures order: ascending(r)
  ensures is: r == inOrder(dom(a.Children))
