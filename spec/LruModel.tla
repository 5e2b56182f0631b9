-------------------------------- MODULE LruModel --------------------------------
(* Every short history of insertions (with shared strings), direct stores,        *)
(* reservations and pops, checked against the accounting done from scratch.       *)
EXTENDS Lru, TLC, Json
CONSTANTS maxb, maxn, maxs, off, MaxDepth, Emit
VARIABLES s, made, hist
vars == <<s, made, hist>>
Lim(x) == IF x = 99999 THEN -1 ELSE x       \* (a configuration file has no negative numbers)
C == [maxb |-> Lim(maxb), maxn |-> Lim(maxn), maxs |-> Lim(maxs), off |-> off]
Ks == {<<97>>, <<98, 98>>}
Vs == {<<>>, <<49, 49, 49>>}
\* made : entries made so far (their string identities); a new string gets identity 2n-1 / 2n
New(kref, k, vref, v) ==
  LET n == Len(made) + 1 IN
  [s |-> 0, k |-> IF kref = 0 THEN k ELSE made[kref].k, v |-> IF vref = 0 THEN v ELSE made[vref].v,
   ki |-> IF kref = 0 THEN 2*n - 1 ELSE made[kref].ki, vi |-> IF vref = 0 THEN 2*n ELSE made[vref].vi]
Forms == {[kref |-> 0, vref |-> 0, k |-> k, v |-> v] : k \in Ks, v \in Vs}
         \cup {[kref |-> r, vref |-> 0, k |-> <<>>, v |-> v] : r \in 1..Len(made), v \in Vs}
         \cup {[kref |-> r, vref |-> r, k |-> <<>>, v |-> <<>>] : r \in 1..Len(made)}
Log(op, f) == /\ hist' = Append(hist, <<op, f>>)
              /\ IF Emit THEN PrintT("HIST " \o ToJson(Append(hist, <<op, f>>))) ELSE TRUE
Init == s = EmptyLru(C) /\ made = <<>> /\ hist = <<>>
Insert == \E f \in Forms : LET e == New(f.kref, f.k, f.vref, f.v)  r == Room(s, e, 1, C, <<>>) IN
            /\ s' = IF r.ok THEN Push(r.s, e, C) ELSE r.s
            /\ made' = Append(made, e) /\ Log("insert", f)
Direct == \E f \in Forms : LET e == New(f.kref, f.k, f.vref, f.v) IN
            /\ s' = IF Fits(s, e, C) THEN Push(s, e, C) ELSE s
            /\ made' = Append(made, e) /\ Log("store", f)
Reserve == \E f \in Forms : LET e == New(f.kref, f.k, f.vref, f.v) IN
            /\ s' = Room(s, e, 2, C, <<>>).s
            /\ made' = Append(made, e) /\ Log("reserve", f)
PopOne == /\ s' = IF s.ring = <<>> THEN s ELSE Pop(s)
          /\ made' = made /\ Log("pop", [kref |-> 0, vref |-> 0, k |-> <<>>, v |-> <<>>])
Next == Len(hist) < MaxDepth /\ (Insert \/ Direct \/ Reserve \/ PopOne)
Spec == Init /\ [][Next]_vars
Sound == Exact(s) /\ Within(s, C) /\ Numbered(s, C)
\* what is stored are the latest insertions, in order
Fifo == [][\E k \in 0..Len(s.ring) : \E n \in 0..1 :
             /\ Len(s'.ring) = Len(s.ring) - k + n
             /\ SubSeq(s'.ring, 1, Len(s.ring) - k) = SubSeq(s.ring, k + 1, Len(s.ring))]_vars
=============================================================================
