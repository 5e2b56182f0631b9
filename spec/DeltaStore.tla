------------------------------ MODULE DeltaStore ------------------------------
(* The state both ends of the delta codec keep, and the effect of a frame's     *)
(* operations on it.                                                            *)
(*                                                                              *)
(*  store = [ring  : Seq([n, k, v]), least recently used first; n is the number *)
(*                   frames refer to the entry by                               *)
(*           def   : Seq(Nat), the numbers of the default entries (Static)      *)
(*           keys  : name -> key number                                         *)
(*           last, lastk : the numbers handed out last                          *)
(*           bytes : the bytes held: names and values of ring; the default      *)
(*                   names and values are not counted                           *)
(*           groups: group id -> set of entry numbers,  gid : the one in use]   *)
(*  cfg   = [maxb, maxe : limits; maxn : numbers are below maxn]                *)
EXTENDS Util
CONSTANT Static          \* sequence of <<key, value>>
Offset == Len(Static)

XorSet(A, B) == (A \ B) \cup (B \ A)
StaticKeys == {Static[i][1] : i \in 1..Offset}
FirstOf(k) == CHOOSE i \in 1..Offset : Static[i][1] = k /\ \A j \in 1..(i - 1) : Static[j][1] # k
StaticKeyNo(k) == Cardinality({Static[j][1] : j \in 1..FirstOf(k)})
\* (TLC evaluates this constant once)
StaticKeyNos == [k \in StaticKeys |-> StaticKeyNo(k)]
NewStore == [ring |-> <<>>, def |-> [i \in 1..Offset |-> i], keys |-> StaticKeyNos,
             last |-> Offset, lastk |-> Cardinality(StaticKeys), bytes |-> 0,
             groups |-> [g \in {} |-> {}], gid |-> 0]

\* ---- numbers ------------------------------------------------------------
Numbers(st) == {st.ring[i].n : i \in 1..Len(st.ring)} \cup {st.def[i] : i \in 1..Offset}
IsStored(st, n) == (\E i \in 1..Len(st.ring) : st.ring[i].n = n) \/ \E i \in 1..Offset : st.def[i] = n
KV(st, n) == IF \E i \in 1..Offset : st.def[i] = n THEN Static[CHOOSE i \in 1..Offset : st.def[i] = n]
             ELSE LET e == st.ring[CHOOSE i \in 1..Len(st.ring) : st.ring[i].n = n] IN <<e.k, e.v>>
NumberOf(st, h) ==       \* -1: not stored
  LET S == {st.ring[i].n : i \in {j \in 1..Len(st.ring) : st.ring[j].k = h[1] /\ st.ring[j].v = h[2]}}
           \cup {st.def[i] : i \in {j \in 1..Offset : Static[j] = h}}
  IN IF S = {} THEN -1 ELSE CHOOSE n \in S : TRUE
KeyOf(st, kn) == CHOOSE k \in DOMAIN st.keys : st.keys[k] = kn
RECURSIVE After(_, _, _, _)      \* the first number after n that is not used
After(n, used, lo, hi) == LET m == IF n + 1 >= hi THEN lo ELSE n + 1 IN IF m \in used THEN After(m, used, lo, hi) ELSE m
NextNo(st, cfg) == After(st.last, Numbers(st), Offset, cfg.maxn)
NextKeyNo(st, cfg) == After(st.lastk, {st.keys[k] : k \in DOMAIN st.keys}, 0, cfg.maxn)

\* ---- eviction, insertion ------------------------------------------------
Used(st, k) == k \in StaticKeys \/ \E i \in 1..Len(st.ring) : st.ring[i].k = k
EvictOne(st, pin) ==     \* pin: the names that stay although nothing uses them
  LET e == Head(st.ring)
      s1 == [st EXCEPT !.ring = Tail(@), !.bytes = @ - Len(e.v), !.groups = [g \in DOMAIN @ |-> @[g] \ {e.n}]]
  IN IF e.k \in pin \/ Used(s1, e.k) THEN s1
     ELSE [s1 EXCEPT !.bytes = @ - Len(e.k), !.keys = [k \in DOMAIN @ \ {e.k} |-> @[k]]]
Fits(st, space, more, cfg) == st.ring = <<>> \/ (Len(st.ring) + more <= cfg.maxe /\ st.bytes + space <= cfg.maxb)
AddKey(st, k, cfg) ==
  LET n == NextKeyNo(st, cfg) IN
  [st EXCEPT !.keys = [x \in DOMAIN @ \cup {k} |-> IF x = k THEN n ELSE @[x]], !.lastk = n, !.bytes = @ + Len(k)]
AddVal(st, k, v, cfg) ==
  LET n == NextNo(st, cfg) IN
  [st EXCEPT !.ring = Append(@, [n |-> n, k |-> k, v |-> v]), !.last = n, !.bytes = @ + Len(v),
             !.groups[st.gid] = @ \cup {n}]
RECURSIVE MakeSpace(_, _, _, _, _)
MakeSpace(st, space, more, pin, cfg) ==
  IF Fits(st, space, more, cfg) THEN st ELSE MakeSpace(EvictOne(st, pin), space, more, pin, cfg)
Store(st, h, cfg) ==
  LET s1 == IF h[1] \in DOMAIN st.keys THEN st ELSE AddKey(MakeSpace(st, Len(h[1]), 0, {}, cfg), h[1], cfg) IN
  IF NumberOf(s1, h) # -1 THEN s1
  ELSE AddVal(MakeSpace(s1, Len(h[2]), 1, {h[1]}, cfg), h[1], h[2], cfg)

\* ---- a frame ------------------------------------------------------------
\* x = [tog : set of numbers, lits : Seq(<<k, v>>), later : Seq(<<k, v>>)]
NoOps == [tog |-> {}, lits |-> <<>>, later |-> <<>>]
Enter(st, gid) == [st EXCEPT !.gid = gid, !.groups = [g \in DOMAIN st.groups \cup {gid} |->
                                                        IF g \in DOMAIN st.groups THEN st.groups[g] ELSE {}]]
Toggled(st, x) == [st EXCEPT !.groups[st.gid] = XorSet(@, x.tog)]
GroupMeans(st) == {KV(st, n) : n \in st.groups[st.gid]}
Meaning(st, x) == ToSet(x.lits) \cup GroupMeans(st)      \* of the store after Toggled
\* what was used becomes the most recent, under a new number, of this group alone
Renumber(st, n, cfg) ==
  LET isdef == \E i \in 1..Offset : st.def[i] = n
      d == IF isdef THEN CHOOSE i \in 1..Offset : st.def[i] = n ELSE 0
      r == IF isdef THEN 0 ELSE CHOOSE i \in 1..Len(st.ring) : st.ring[i].n = n
      m == After(st.last, Numbers(st) \ {n}, Offset, cfg.maxn)
      groups == [g \in DOMAIN st.groups |-> IF g = st.gid THEN (st.groups[g] \ {n}) \cup {m} ELSE st.groups[g] \ {n}]
  IN IF isdef THEN [st EXCEPT !.def[d] = m, !.last = m, !.groups = groups]
     ELSE [st EXCEPT !.ring = SubSeq(@, 1, r - 1) \o SubSeq(@, r + 1, Len(@)) \o <<[@[r] EXCEPT !.n = m]>>,
                     !.last = m, !.groups = groups]
Adjust(st, cfg) == FoldLeft(LAMBDA s, n : Renumber(s, n, cfg), st, SetToSortSeq(st.groups[st.gid], <))
Execute(st, x, cfg) == Adjust(FoldLeft(LAMBDA s, h : Store(s, h, cfg), st, x.later), cfg)   \* entered and toggled

\* ---- invariants ---------------------------------------------------------
DynKeys(st) == {st.ring[i].k : i \in 1..Len(st.ring)}
StoreOk(st, cfg) ==
  /\ st.bytes = SumOver(st.ring, LAMBDA e : Len(e.v)) + SumOver(SetToSeq(DynKeys(st) \ StaticKeys), Len)
  /\ DOMAIN st.keys = StaticKeys \cup DynKeys(st)
  /\ Cardinality({st.keys[k] : k \in DOMAIN st.keys}) = Cardinality(DOMAIN st.keys)
  /\ Cardinality(Numbers(st)) = Offset + Len(st.ring)
  /\ Len(st.ring) <= Max2(1, cfg.maxe)
  /\ st.bytes <= cfg.maxb \/ Len(st.ring) = 1        \* the newest entry is kept whatever its size
  /\ \A i, j \in 1..Len(st.ring) : (st.ring[i].k = st.ring[j].k /\ st.ring[i].v = st.ring[j].v) => i = j
  /\ \A g \in DOMAIN st.groups : st.groups[g] \subseteq Numbers(st)
=============================================================================
