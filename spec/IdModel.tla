------------------------------- MODULE IdModel -------------------------------
(* The implementations' algorithm - a counter that wraps once, and the set of   *)
(* identifiers given back, which are used first - is a store of identifiers.    *)
EXTENDS IdStore, Sequences, TLC, Json
CONSTANTS Max, Depth, Emit
VARIABLES st, next, freed, order, hist
vars == <<st, next, freed, order, hist>>
Init == st = NewStore(Max) /\ next = 0 /\ freed = {} /\ order = <<>> /\ hist = <<>>
Count == IF next + 1 >= Max THEN 0 ELSE next + 1
Log(op) == hist' = Append(hist, op) /\ (Emit => PrintT("HIST " \o ToJson(Append(hist, op))))
Get == /\ ~Full(st)
       /\ \/ /\ freed # {} /\ \E id \in freed : freed' = freed \ {id} /\ st' = Take(st, id) /\ order' = Append(order, id)
             /\ UNCHANGED next
          \/ /\ freed = {} /\ next' = Count /\ st' = Take(st, Count) /\ order' = Append(order, Count) /\ UNCHANGED freed
       /\ Log(0)
Done == \E k \in 1..Len(order) :
          /\ st' = Give(st, order[k]) /\ freed' = freed \cup {order[k]}
          /\ order' = SubSeq(order, 1, k - 1) \o SubSeq(order, k + 1, Len(order)) /\ UNCHANGED next
          /\ Log(k)
Next == Len(hist) < Depth /\ (Get \/ Done)
Spec == Init /\ [][Next]_vars
\* every step that takes an identifier takes a legal one
Legal == [][\A id \in st'.used \ st.used : GetVerdict(st, id) = ""]_vars
Grows == [][Len(order') > Len(order) => Cardinality(st'.used) = Cardinality(st.used) + 1]_vars
Parts == st.used \cap freed = {} /\ Cardinality(st.used) = Len(order)
=============================================================================
