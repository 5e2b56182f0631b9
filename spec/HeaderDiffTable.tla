---------------------------- MODULE HeaderDiffTable ----------------------------
(* The compression context of the HeaderDiff codec and the effect of every      *)
(* header representation on it.                                                 *)
(*                                                                              *)
(*   context = [tab : Seq([n, v]),  the header table; entries never move, they  *)
(*                                  are appended or replaced in place           *)
(*              names : Seq(name),  the name table of the direction             *)
(*              size : Nat,         sum of the lengths of the indexed values    *)
(*              out : Seq(<<n, v>>)]                                            *)
(*   item = [op |-> "idx", i]                      the entry at 0-based i       *)
(*        | [op |-> "lit", ix, n, new, i, s]       name + value s               *)
(*        | [op |-> "delta", ix, i, k, s]          name of entry i, the first   *)
(*                                                 k bytes of its value, then s *)
(*   ix = "no"   not indexed                                                    *)
(*        "inc"  appended to the table                                          *)
(*        "sub"  replaces entry i                                               *)
(*   new = the name was written as a string, so it joins the name table         *)
EXTENDS Util

ContextOf(names) == [tab |-> <<>>, names |-> names, size |-> 0, out |-> <<>>]
BeginFrame(c) == [c EXCEPT !.out = <<>>]

UsesEntry(it) == it.op \in {"idx", "delta"} \/ it.ix = "sub"
ValidItem(c, it) == UsesEntry(it) => it.i < Len(c.tab)

NameOf(c, it) == IF it.op = "lit" THEN it.n ELSE c.tab[it.i+1].n
ValueOf(c, it) == CASE it.op = "idx" -> c.tab[it.i+1].v
                    [] it.op = "lit" -> it.s
                    [] it.op = "delta" -> Slice(c.tab[it.i+1].v, 1, it.k) \o it.s

Apply(c, it) ==
  LET n == NameOf(c, it)
      v == ValueOf(c, it)
      e == [n |-> n, v |-> v]
      ix == IF it.op = "idx" THEN "no" ELSE it.ix
  IN [tab   |-> CASE ix = "no" -> c.tab
                  [] ix = "inc" -> Append(c.tab, e)
                  [] ix = "sub" -> [c.tab EXCEPT ![it.i+1] = e],
      size  |-> CASE ix = "no" -> c.size
                  [] ix = "inc" -> c.size + Len(v)
                  [] ix = "sub" -> c.size + Len(v) - Len(c.tab[it.i+1].v),
      names |-> IF it.op = "lit" /\ it.new THEN Append(c.names, n) ELSE c.names,
      out   |-> Append(c.out, <<n, v>>)]

TabSize(t) == SumOver(t, LAMBDA e : Len(e.v))
=============================================================================
