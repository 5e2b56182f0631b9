---------------------------------- MODULE Lru ----------------------------------
(* The bounded store of delta2 (LruStorage): a queue of key/value entries with   *)
(* byte and item limits, sequence numbers that wrap, and strings that may be     *)
(* shared between entries (each shared string is accounted once, strings owned   *)
(* from outside not at all).                                                     *)
(*  s = [ring : Seq([s, k, v, ki, vi]), next, bytes]; ki/vi : identity of the    *)
(*      key / value string, 0 when it is owned from outside the store            *)
(*  c = [maxb, maxn, maxs : limits, -1 for none; off : the first number]         *)
EXTENDS Util
EmptyLru(c) == [ring |-> <<>>, next |-> c.off, bytes |-> 0]
HeldIn(ring, id) == \E i \in 1..Len(ring) : ring[i].ki = id \/ ring[i].vi = id
StrCost(ring, id, t) == IF id = 0 \/ HeldIn(ring, id) THEN 0 ELSE Len(t)
\* an entry whose key and value are one and the same string pays for it never
\* (the string is referenced twice); this does not occur in the code base
Cost(ring, e) == StrCost(ring, e.ki, e.k) + StrCost(ring, e.vi, e.v)
FitsBytes(s, e, c) == c.maxb = -1 \/ s.bytes + Cost(s.ring, e) <= c.maxb
FitsItems(s, n, c) == c.maxn = -1 \/ Len(s.ring) + n <= c.maxn
Pop(s) == [s EXCEPT !.ring = Tail(@), !.bytes = @ - Cost(Tail(s.ring), Head(s.ring))]

\* make room for e and n items: [s, ok, out : what was evicted, oldest first]
RECURSIVE Room(_, _, _, _, _)
Room(s, e, n, c, out) ==
  IF c.maxn = 0 \/ c.maxb = 0 THEN [s |-> s, ok |-> FALSE, out |-> out]
  ELSE IF FitsItems(s, n, c) /\ FitsBytes(s, e, c) THEN [s |-> s, ok |-> TRUE, out |-> out]
  ELSE IF s.ring = <<>> THEN [s |-> s, ok |-> FALSE, out |-> out]
  ELSE Room(Pop(s), e, n, c, Append(out, Head(s.ring)))
Fits(s, e, c) == FitsItems(s, 1, c) /\ FitsBytes(s, e, c)
Push(s, e, c) == [ring |-> Append(s.ring, [e EXCEPT !.s = s.next]), bytes |-> s.bytes + Cost(s.ring, e),
                  next |-> IF c.maxs # -1 /\ s.next + 1 >= c.maxs THEN c.off ELSE s.next + 1]

Live(s) == {s.ring[i].s : i \in 1..Len(s.ring)}
At(s, q) == s.ring[CHOOSE i \in 1..Len(s.ring) : s.ring[i].s = q]
PosOf(s, q) == (CHOOSE i \in 1..Len(s.ring) : s.ring[i].s = q) - 1

\* accounting from scratch
Ids(ring) == ({ring[i].ki : i \in 1..Len(ring)} \cup {ring[i].vi : i \in 1..Len(ring)}) \ {0}
TextOf(ring, id) == LET i == CHOOSE i \in 1..Len(ring) : ring[i].ki = id \/ ring[i].vi = id
                    IN IF ring[i].ki = id THEN ring[i].k ELSE ring[i].v
Exact(s) == s.bytes = FoldLeft(LAMBDA a, id : a + Len(TextOf(s.ring, id)), 0, SetToSeq(Ids(s.ring)))
Within(s, c) == (c.maxb = -1 \/ s.bytes <= c.maxb) /\ (c.maxn = -1 \/ Len(s.ring) <= c.maxn)
Numbered(s, c) == /\ Cardinality(Live(s)) = Len(s.ring)
                  /\ \A q \in Live(s) : q >= c.off /\ (c.maxs = -1 \/ q < c.maxs)
                  /\ \A i \in 1..(Len(s.ring)-1) :
                       s.ring[i+1].s = IF c.maxs # -1 /\ s.ring[i].s + 1 >= c.maxs THEN c.off ELSE s.ring[i].s + 1
=============================================================================
