package cmd

func prepareBalance(j journal.Journal)
  props C07
  requires [C23] numbered()
  requires j.Root != nil && linked()
  modifies mapclass(j.Root.Children)
  modifies journal.Account.Parent[*]
  ensures everything: showZero ==> (forall x *journal.Account, k string {has(x.Children, k)} :: has(x.Children, k) == old(has(x.Children, k)) && x.Children[k] == old(x.Children[k]))
  ensures shown: !showZero ==> (forall any cs []string {walk(j.Root, cs)} :: len(cs) > 0 ==> (walk(j.Root, cs) != nil) == old(walk(j.Root, cs) != nil && alive(walk(j.Root, cs))) && (walk(j.Root, cs) != nil ==> walk(j.Root, cs) == old(walk(j.Root, cs))))
