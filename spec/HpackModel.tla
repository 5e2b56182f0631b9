------------------------------- MODULE HpackModel -------------------------------
(* Design model of the RFC 7541 codec: an encoder that indexes every field it    *)
(* finds in one of the tables and adds every other field, a decoder applying the *)
(* items, and every history of field lists over a small universe.                *)
EXTENDS Hpack, TLC, Json
CONSTANTS Universe, Cap, MaxSet, MaxDepth
VARIABLES enc, dec, last, items, hist
vars == <<enc, dec, last, items, hist>>

IndexOf(c, h) == Min({k \in 1..(NStatic + Len(c.tab)) : FieldAt(c, k) = h})
ItemFor(c, h) == IF InTable(c, h) THEN [op |-> "idx", i |-> IndexOf(c, h)] ELSE [op |-> "inc", n |-> h[1], v |-> h[2]]
Encode(c0, hs) == FoldLeft(LAMBDA a, h : LET it == ItemFor(a.c, h) IN [c |-> ApplyItem(a.c, it), items |-> Append(a.items, it)],
                           [c |-> NewBlock(c0), items |-> <<>>], hs)
Decode(c0, its) == FoldLeft(LAMBDA a, it : ApplyItem(a, it), NewBlock(c0), its)
Orders == UNION { {s \in [1..m -> 1..Len(Universe)] : \A i, j \in 1..m : i # j => s[i] # s[j]} : m \in 0..MaxSet }

Init == enc = Fresh(Cap) /\ dec = Fresh(Cap) /\ last = <<>> /\ items = <<>> /\ hist = <<>>
Send(o) == /\ Len(hist) < MaxDepth
           /\ \E hs \in {[k \in 1..Len(o) |-> Universe[o[k]]]} : \E e \in {Encode(enc, hs)} :
                /\ enc' = e.c /\ items' = e.items /\ dec' = Decode(dec, e.items) /\ last' = hs
           /\ hist' = Append(hist, o) /\ PrintT("HIST " \o ToJson(Append(hist, o)))
Next == \E o \in Orders : Send(o)
Spec == Init /\ [][Next]_vars
View == <<enc.tab, Len(hist)>>

Bounded == TabBytes(enc.tab) <= Cap
StepRoundTrip == [][dec'.out = last']_vars
StepInSync == [][dec'.tab = enc'.tab]_vars
\* a message all of whose fields are in the tables, and none of which is lost meanwhile, is indices only
StepIndexed == [][(\A k \in 1..Len(last') : InTable(enc, last'[k])) => (\A k \in 1..Len(items') : items'[k].op = "idx") /\ enc'.tab = enc.tab]_vars
=============================================================================
