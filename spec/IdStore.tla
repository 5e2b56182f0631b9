------------------------------- MODULE IdStore -------------------------------
(* Stores of identifiers.  A store hands out identifiers of its range that are  *)
(* not in use, as long as there is one; which one is its own choice.            *)
EXTENDS Integers, FiniteSets
\* a store: [max, used]; identifiers are 0..max-1 (any number if max = 0)
NewStore(max) == [max |-> max, used |-> {}]
InRange(st, id) == id >= 0 /\ (st.max = 0 \/ id < st.max)
Full(st) == st.max # 0 /\ Cardinality(st.used) >= st.max
Take(st, id) == [st EXCEPT !.used = @ \cup {id}]
Give(st, id) == [st EXCEPT !.used = @ \ {id}]
\* "" or what is wrong with handing out id
GetVerdict(st, id) == IF ~InRange(st, id) THEN "out-of-range" ELSE IF id \in st.used THEN "in-use" ELSE ""
=============================================================================
