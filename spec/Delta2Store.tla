----------------------------- MODULE Delta2Store -----------------------------
(* The state both ends of the delta2 codec keep, and the effect of a frame's    *)
(* operations on it.                                                            *)
(*                                                                              *)
(*  store = [ring  : Seq([s, k, v, ki, vi]), oldest first; s is the sequence    *)
(*                   number, ki / vi the identity of the key / value string     *)
(*                   (0: a string of the static table)                          *)
(*           next  : the next sequence number,   nid : the next string identity *)
(*           bytes : the bytes held: every string counted once, static ones not *)
(*           groups: group id -> set of sequence numbers (non-empty groups and  *)
(*                   the one in use),   gid, live : the group in use, and       *)
(*                   whether it still exists (an eviction that empties it       *)
(*                   deletes it; what is added to it later is lost)]            *)
(*  cfg   = [maxb, maxe, maxi : limits; hg, imp, ref, end : options]            *)
EXTENDS Util
CONSTANT Static          \* sequence of <<key, value>>: sequence numbers 0..
Offset == Len(Static)

XorSet(A, B) == (A \ B) \cup (B \ A)
EmptyStore == [ring |-> <<>>, next |-> Offset, nid |-> 1, bytes |-> 0, groups |-> <<>>, gid |-> 0, live |-> TRUE]
EmptyGroups == [g \in {} |-> {}]
NewStore == [EmptyStore EXCEPT !.groups = EmptyGroups]

\* ---- sequence numbers and wire indices ----------------------------------
StoredSeqs(st) == {st.ring[i].s : i \in 1..Len(st.ring)}
IsStored(st, s) == (s >= 0 /\ s < Offset) \/ \E i \in 1..Len(st.ring) : st.ring[i].s = s
EntryAt(st, s) == IF s < Offset THEN [s |-> s, k |-> Static[s+1][1], v |-> Static[s+1][2], ki |-> 0, vi |-> 0]
                  ELSE st.ring[CHOOSE i \in 1..Len(st.ring) : st.ring[i].s = s]
\* distance from the newest -> sequence number (-1: nothing there)
FromEnd(st, i) == LET n == Len(st.ring) IN
                  IF i < n THEN st.ring[n - i].s ELSE IF i - n < Offset THEN Offset - 1 - (i - n) ELSE -1
ToEnd(st, s) == LET n == Len(st.ring) IN
                IF s < Offset THEN n + Offset - 1 - s
                ELSE n - CHOOSE i \in 1..n : st.ring[i].s = s
SeqAt(st, i, cfg) == IF cfg.end THEN FromEnd(st, i) ELSE IF IsStored(st, i) THEN i ELSE -1

\* ---- bytes, eviction, insertion -----------------------------------------
Held(ring, id) == \E i \in 1..Len(ring) : ring[i].ki = id \/ ring[i].vi = id
CostIn(ring, id, s) == IF id = 0 \/ Held(ring, id) THEN 0 ELSE Len(s)
EntryCost(ring, e) == CostIn(ring, e.ki, e.k) + CostIn(ring, e.vi, e.v)

EvictOne(st) ==
  LET e == Head(st.ring)
      ring == Tail(st.ring)
      left(g) == st.groups[g] \ {e.s}
      keep == {g \in DOMAIN st.groups : left(g) # {}}
  IN [st EXCEPT !.ring = ring, !.bytes = @ - EntryCost(ring, e),
                !.groups = [g \in keep |-> left(g)], !.live = @ /\ st.gid \in keep]

Hopeless(st, cfg) == cfg.maxe = 0 \/ cfg.maxb = 0
Room(st, e, cfg) == Len(st.ring) < cfg.maxe /\ st.bytes + EntryCost(st.ring, e) <= cfg.maxb
Insert(st, e, cfg) ==
  [st EXCEPT !.bytes = @ + EntryCost(st.ring, e), !.ring = Append(@, [e EXCEPT !.s = st.next]),
             !.next = IF @ + 1 >= cfg.maxi THEN Offset ELSE @ + 1]
AddToGroup(st, s) == IF st.live THEN [st EXCEPT !.groups[st.gid] = @ \cup {s}] ELSE st
DropFromGroup(st, s) == IF st.live THEN [st EXCEPT !.groups[st.gid] = @ \ {s}] ELSE st

\* a new entry; identity -1 stands for a string not shared with anything
Fresh(st, e) == [st |-> [st EXCEPT !.nid = @ + 2],
                 e |-> [e EXCEPT !.ki = IF @ = -1 THEN st.nid ELSE @, !.vi = IF @ = -1 THEN st.nid + 1 ELSE @]]
RECURSIVE Put(_, _, _)     \* [st, ok]
Put(st, e, cfg) ==
  IF Hopeless(st, cfg) THEN [st |-> st, ok |-> FALSE]
  ELSE IF Room(st, e, cfg) THEN [st |-> Insert(st, e, cfg), ok |-> TRUE]
  ELSE IF st.ring = <<>> THEN [st |-> st, ok |-> FALSE]
  ELSE Put(EvictOne(st), e, cfg)

\* ---- a frame ------------------------------------------------------------
\* x = [stog, etog : sets of sequence numbers, lits : Seq(<<k, v>>), later : Seq(entry)]
NoOps == [stog |-> {}, etog |-> {}, lits |-> <<>>, later |-> <<>>]
Enter(st, gid) == [st EXCEPT !.gid = gid, !.live = TRUE,
                             !.groups = [g \in DOMAIN st.groups \cup {gid} |->
                                           IF g \in DOMAIN st.groups THEN st.groups[g] ELSE {}]]
Toggled(st, x) == [st EXCEPT !.groups[st.gid] = XorSet(@, x.stog)]
Meaning(st, x) ==    \* of the store after Toggled
  ToSet(x.lits) \cup {<<EntryAt(st, s).k, EntryAt(st, s).v>> : s \in XorSet(x.etog, st.groups[st.gid])}
\* what hg_adjust stores again
Again(st, cfg) == IF ~cfg.hg THEN <<>>
                  ELSE LET ss == SetToSortSeq(st.groups[st.gid], <)
                       IN [i \in 1..Len(ss) |-> LET e == EntryAt(st, ss[i]) IN
                              [e EXCEPT !.vi = IF cfg.ref THEN @ ELSE -1]]
StoreLater(st, e0, cfg) ==
  LET f == Fresh(st, e0)  p == Put(f.st, f.e, cfg) IN
  IF p.ok /\ cfg.imp THEN AddToGroup(p.st, p.st.ring[Len(p.st.ring)].s) ELSE p.st
StoreAgain(st, e0, cfg) ==
  LET f == Fresh(DropFromGroup(st, e0.s), e0)  p == Put(f.st, f.e, cfg) IN
  IF p.ok THEN AddToGroup(p.st, p.st.ring[Len(p.st.ring)].s) ELSE p.st
Execute(st, x, cfg) ==      \* st already entered and toggled
  LET again == Again(st, cfg)
      s1 == FoldLeft(LAMBDA a, e : StoreLater(a, e, cfg), st, x.later)
  IN FoldLeft(LAMBDA a, e : StoreAgain(a, e, cfg), s1, again)

\* ---- invariants ---------------------------------------------------------
AllIds(ring) == {ring[i].ki : i \in 1..Len(ring)} \cup {ring[i].vi : i \in 1..Len(ring)}
LenOf(ring, id) == IF id = 0 THEN 0
                   ELSE LET i == CHOOSE i \in 1..Len(ring) : ring[i].ki = id \/ ring[i].vi = id
                        IN IF ring[i].ki = id THEN Len(ring[i].k) ELSE Len(ring[i].v)
BytesOf(ring) == FoldLeft(LAMBDA a, id : a + LenOf(ring, id), 0, SetToSeq(AllIds(ring)))
StoreOk(st, cfg) ==
  /\ st.bytes = BytesOf(st.ring)
  /\ Len(st.ring) <= cfg.maxe /\ st.bytes <= cfg.maxb
  /\ Cardinality(StoredSeqs(st)) = Len(st.ring)
  /\ \A s \in StoredSeqs(st) : s >= Offset /\ s < cfg.maxi
  /\ \A g \in DOMAIN st.groups : \A s \in st.groups[g] : IsStored(st, s)
=============================================================================
