--------------------------------- MODULE Hpack ---------------------------------
(* The compression context of RFC 7541 and the effect of every representation   *)
(* on it.  Both ends hold a dynamic table (newest entry first); the wire        *)
(* carries representations ("items"):                                           *)
(*   [op |-> "idx", i]          the field at 1-based index i                    *)
(*   [op |-> "inc", n, v]       a literal, added to the table                   *)
(*   [op |-> "not", n, v]       a literal, not added                            *)
(*   [op |-> "never", n, v]     a literal, never to be added                    *)
(*   [op |-> "size", i]         the table may hold i bytes from now on          *)
(* A context is [tab : Seq(<<name, value>>), cap, out : Seq(<<name, value>>)].  *)
EXTENDS Util, HpackStatic
CONSTANT Overhead        \* accounting overhead per entry (32)
NStatic == Len(HpackStaticTable)

FieldLen(h) == Len(h[1]) + Len(h[2]) + Overhead
TabBytes(t) == SumOver(t, FieldLen)
\* the longest prefix (newest entries) of at most `room` bytes
RECURSIVE KeepTo(_, _, _)
KeepTo(t, size, room) ==
  IF t = <<>> \/ size <= room THEN t
  ELSE KeepTo(SubSeq(t, 1, Len(t) - 1), size - FieldLen(t[Len(t)]), room)
AddField(t, h, cap) ==
  IF FieldLen(h) > cap THEN <<>>      \* an entry larger than the table empties it
  ELSE <<h>> \o KeepTo(t, TabBytes(t), cap - FieldLen(h))

Fresh(cap) == [tab |-> <<>>, cap |-> cap, out |-> <<>>]
KnownIndex(c, i) == i >= 1 /\ i <= NStatic + Len(c.tab)
FieldAt(c, i) == IF i <= NStatic THEN HpackStaticTable[i] ELSE c.tab[i - NStatic]
InTable(c, h) == (\E k \in 1..NStatic : HpackStaticTable[k] = h) \/ (\E k \in 1..Len(c.tab) : c.tab[k] = h)

Legal(c, it, cap) == CASE it.op = "idx" -> KnownIndex(c, it.i)
                       [] it.op = "size" -> it.i <= cap /\ c.out = <<>>
                       [] OTHER -> TRUE
ApplyItem(c, it) ==
  CASE it.op = "idx" -> [c EXCEPT !.out = Append(@, FieldAt(c, it.i))]
    [] it.op = "inc" -> [c EXCEPT !.tab = AddField(@, <<it.n, it.v>>, c.cap), !.out = Append(@, <<it.n, it.v>>)]
    [] it.op = "size" -> [c EXCEPT !.cap = it.i, !.tab = KeepTo(@, TabBytes(@), it.i)]
    [] OTHER -> [c EXCEPT !.out = Append(@, <<it.n, it.v>>)]
NewBlock(c) == [c EXCEPT !.out = <<>>]
=============================================================================
