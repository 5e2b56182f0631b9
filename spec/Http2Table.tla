------------------------------ MODULE Http2Table ------------------------------
(* The shared compression context of the HTTP/2 (HPACK draft) codec, and the   *)
(* effect of every header representation on it.  Both the encoder and the      *)
(* decoder hold such a context; the wire carries representations ("items").    *)
(*                                                                             *)
(*   context  = [tab : Seq(entry), out : Seq(<<name, value>>)]                 *)
(*   entry    = [n, v : byte strings, ref : in reference set,                  *)
(*               em : already emitted while processing the current frame]      *)
(*   item     = [op |-> "idx", i]            toggle the entry at 0-based i     *)
(*            | [op |-> "not", n, v]         literal, not added to the table   *)
(*            | [op |-> "inc", n, v]         literal, appended to the table    *)
(*            | [op |-> "sub", n, v, i]      literal, replaces the entry at i  *)
EXTENDS Util
CONSTANT Overhead        \* accounting overhead per table entry (32)

EntryLen(e) == Len(e.n) + Len(e.v) + Overhead
TabSize(t) == SumOver(t, EntryLen)
Entry(n, v) == [n |-> n, v |-> v, ref |-> TRUE, em |-> TRUE]

InitTab(static) == [k \in 1..Len(static) |->
   [n |-> static[k][1], v |-> static[k][2], ref |-> FALSE, em |-> FALSE]]

\* The shortest prefix whose removal leaves at most `room` bytes.
RECURSIVE DropTo(_, _, _)
DropTo(t, size, room) ==
  IF t = <<>> \/ size <= room THEN t
  ELSE DropTo(Tail(t), size - EntryLen(Head(t)), room)

AppendEntry(t, e, cap) ==
  LET kept == DropTo(t, TabSize(t), cap - EntryLen(e)) IN
  IF EntryLen(e) <= cap THEN Append(kept, e) ELSE kept

\* Substitution: the new entry takes the place of the old one; entries are
\* evicted from the front until it fits; if the old entry is itself evicted
\* the new one goes to the front.
RECURSIVE SubstDrop(_, _, _, _)
SubstDrop(t, i, e, cap) ==     \* returns <<table, index or -1>>
  LET delta == IF i >= 0 THEN EntryLen(e) - EntryLen(t[i+1]) ELSE EntryLen(e) IN
  IF t = <<>> \/ TabSize(t) + delta <= cap THEN <<t, i>>
  ELSE SubstDrop(Tail(t), IF i >= 0 THEN i-1 ELSE -1, e, cap)
SubstEntry(t, i, e, cap) ==
  LET r == SubstDrop(t, i, e, cap) IN
  IF r[2] >= 0 THEN [r[1] EXCEPT ![r[2]+1] = e]
  ELSE IF EntryLen(e) <= cap THEN <<e>> \o r[1] ELSE r[1]

BeginFrame(c) == [tab |-> [k \in 1..Len(c.tab) |-> [c.tab[k] EXCEPT !.em = FALSE]],
                  out |-> <<>>]

ValidItem(c, it) == it.op \in {"idx", "sub"} => (it.i >= 0 /\ it.i < Len(c.tab))

Toggle(c, i) ==
  LET e == c.tab[i+1] IN
  IF e.ref THEN [c EXCEPT !.tab[i+1].ref = FALSE, !.tab[i+1].em = FALSE]
  ELSE [tab |-> [c.tab EXCEPT ![i+1].ref = TRUE, ![i+1].em = TRUE],
        out |-> Append(c.out, <<e.n, e.v>>)]

Apply(c, it, cap) ==
  CASE it.op = "idx" -> Toggle(c, it.i)
    [] it.op = "not" -> [c EXCEPT !.out = Append(@, <<it.n, it.v>>)]
    [] it.op = "inc" -> [tab |-> AppendEntry(c.tab, Entry(it.n, it.v), cap),
                         out |-> Append(c.out, <<it.n, it.v>>)]
    [] it.op = "sub" -> [tab |-> SubstEntry(c.tab, it.i, Entry(it.n, it.v), cap),
                         out |-> Append(c.out, <<it.n, it.v>>)]

\* at the end of a frame the rest of the reference set is emitted
EndFrame(c) ==
  LET rest == SelectSeq(c.tab, LAMBDA e : e.ref /\ ~e.em) IN
  [c EXCEPT !.out = @ \o [k \in 1..Len(rest) |-> <<rest[k].n, rest[k].v>>]]

RefSet(c) == {<<c.tab[k].n, c.tab[k].v>> : k \in {j \in 1..Len(c.tab) : c.tab[j].ref}}
=============================================================================
