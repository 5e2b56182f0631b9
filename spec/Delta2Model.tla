------------------------------ MODULE Delta2Model ------------------------------
(* Design model of the delta2 codec: the encoder's strategy (toggles for what    *)
(* is stored, clones for known keys, literals otherwise), its wire indices, and  *)
(* the decoder that only sees the operations.  The order of the operations in a  *)
(* frame is free (a hash table), so every order of the stores is a transition.   *)
EXTENDS Delta2Store, TLC, Json
CONSTANTS Universe,      \* sequence of <<key, value>>
          Ephemeral,     \* keys that are cloned but not stored
          Gids, Cfg, OnlyE,
          MaxSet, MaxDepth, Emit
VARIABLES enc, dec, ops, got, last, hist
vars == <<enc, dec, ops, got, last, hist>>

Newest(ring, P(_)) == LET S == {i \in 1..Len(ring) : P(ring[i])} IN IF S = {} THEN -1 ELSE ring[Max(S)].s
NewestStatic(P(_)) == LET S == {i \in 1..Offset : P(Static[i])} IN IF S = {} THEN -1 ELSE Max(S) - 1
FindVal(st, h) == LET r == Newest(st.ring, LAMBDA e : e.k = h[1] /\ e.v = h[2])
                  IN IF r # -1 THEN r ELSE NewestStatic(LAMBDA e : e[1] = h[1] /\ e[2] = h[2])
FindKey(st, k) == LET r == Newest(st.ring, LAMBDA e : e.k = k)
                  IN IF r # -1 THEN r ELSE NewestStatic(LAMBDA e : e[1] = k)
Wire(st, s) == IF Cfg.end THEN ToEnd(st, s) ELSE s

\* operations for header set H: [tog : set of wire indices, etog : ..., stores : Seq, once : set]
Strategy(st, H, order) ==
  LET grp == st.groups[st.gid]
      hdr(s) == <<EntryAt(st, s).k, EntryAt(st, s).v>>
      \* at most one member of the group serves each header
      kept == {s \in grp : hdr(s) \in H /\ \A t \in grp : hdr(t) = hdr(s) => t >= s}
      rest == H \ {hdr(s) : s \in kept}
      known == {h \in rest : FindVal(st, h) # -1}
      new == rest \ known
      op(h) == LET s == FindKey(st, h[1]) IN
               IF s # -1 THEN [op |-> IF h[1] \in Ephemeral THEN "eclone" ELSE "sclone", i |-> Wire(st, s), k |-> <<>>, v |-> h[2]]
               ELSE [op |-> "skvsto", i |-> 0, k |-> h[1], v |-> h[2]]
      seq == SelectSeq(order, LAMBDA h : h \in new)
  IN [stog |-> {Wire(st, s) : s \in (grp \ kept) \cup (IF OnlyE THEN {} ELSE {FindVal(st, h) : h \in known})},
      etog |-> IF OnlyE THEN {Wire(st, FindVal(st, h)) : h \in known} ELSE {},
      text |-> [j \in 1..Len(seq) |-> op(seq[j])]]

\* what the receiver makes of the operations
Read(st, o) ==
  [stog |-> {SeqAt(st, i, Cfg) : i \in o.stog},
   etog |-> {SeqAt(st, i, Cfg) : i \in o.etog},
   lits |-> [j \in 1..Len(o.text) |->
              <<IF o.text[j].op = "skvsto" THEN o.text[j].k ELSE EntryAt(st, SeqAt(st, o.text[j].i, Cfg)).k, o.text[j].v>>],
   later |-> LET sel == SelectSeq(o.text, LAMBDA x : x.op # "eclone") IN
             [j \in 1..Len(sel) |->
               IF sel[j].op = "skvsto" THEN [s |-> 0, k |-> sel[j].k, v |-> sel[j].v, ki |-> -1, vi |-> -1]
               ELSE LET e == EntryAt(st, SeqAt(st, sel[j].i, Cfg)) IN
                    [s |-> 0, k |-> e.k, v |-> sel[j].v, ki |-> e.ki, vi |-> -1]]]

Orders == UNION { {s \in [1..m -> 1..Len(Universe)] : \A i, j \in 1..m : i # j => s[i] # s[j]} : m \in 0..MaxSet }
HdrSeq(o) == [i \in 1..Len(o) |-> Universe[o[i]]]

Init == /\ enc = NewStore /\ dec = NewStore /\ ops = [stog |-> {}, etog |-> {}, text |-> <<>>]
        /\ got = {} /\ last = <<{}, 0>> /\ hist = <<>>
Send(g, o) ==
  /\ Len(hist) < MaxDepth
  /\ LET e0 == Enter(enc, g)
         p == Strategy(e0, ToSet(HdrSeq(o)), HdrSeq(o))
         ex == Read(e0, p)
         d0 == Enter(dec, g)
         dx == Read(d0, p)
         d1 == Toggled(d0, dx)
     IN /\ ops' = p
        /\ enc' = Execute(Toggled(e0, ex), ex, Cfg)
        /\ got' = Meaning(d1, dx)
        /\ dec' = Execute(d1, dx, Cfg)
  /\ last' = <<ToSet(HdrSeq(o)), g>>
  /\ hist' = Append(hist, <<g, o>>)
  /\ IF Emit THEN PrintT("HIST " \o ToJson(Append(hist, <<g, o>>))) ELSE TRUE
Next == \E g \in Gids : \E o \in Orders : Send(g, o)
Spec == Init /\ [][Next]_vars

\* identities and sequence numbers up to renaming
Canon(st) == LET ids == SetToSortSeq(AllIds(st.ring) \ {0}, <)
                 pos(i) == IF i = 0 THEN 0 ELSE CHOOSE j \in 1..Len(ids) : ids[j] = i
             IN <<[i \in 1..Len(st.ring) |-> <<st.ring[i].s, st.ring[i].k, st.ring[i].v, pos(st.ring[i].ki), pos(st.ring[i].vi)>>],
                  st.next, st.groups>>
View == <<Canon(enc), Canon(dec), Len(hist)>>

StepRoundTrip == [][got' = last'[1]]_vars
StepInSync    == [][Canon(enc') = Canon(dec')]_vars
StepStoreOk   == [][StoreOk(dec', Cfg)]_vars
\* repeating the last header set for its group, all of it stored, sends no text
StepCheap     == [][(last' = last /\ hist # <<>> /\ \A h \in last[1] : FindVal(enc, h) # -1) => ops'.text = <<>>]_vars
\* ... and no operation at all when the group is exactly that set
StepSilent    == [][(last' = last /\ hist # <<>> /\ last[2] \in DOMAIN enc.groups
                      /\ {<<EntryAt(enc, s).k, EntryAt(enc, s).v>> : s \in enc.groups[last[2]]} = last[1]
                      /\ Cardinality(enc.groups[last[2]]) = Cardinality(last[1]))
                     => ops' = [stog |-> {}, etog |-> {}, text |-> <<>>]]_vars
=============================================================================
