------------------------------ MODULE DeltaModel ------------------------------
(* Design model of the delta codec: the encoder's strategy (toggles for what is *)
(* stored, clones for known names, literals otherwise, references that are      *)
(* never stored for the names in Ephemeral) and the decoder, which sees only    *)
(* the operations.  The order of the stores in a frame is free, but clones come *)
(* before literals.                                                             *)
EXTENDS DeltaStore, TLC, Json
CONSTANTS Universe, Ephemeral, Gids, Cfg, MaxSet, MaxDepth, Emit
VARIABLES enc, dec, ops, got, last, hist
vars == <<enc, dec, ops, got, last, hist>>

Strategy(st, H, order) ==
  LET grp == st.groups[st.gid]
      kept == {n \in grp : KV(st, n) \in H}
      rest == H \ {KV(st, n) : n \in kept}
      once == {h \in rest : h[1] \in Ephemeral}
      known == {h \in rest \ once : NumberOf(st, h) # -1}
      new == (rest \ once) \ known
      seq == SelectSeq(order, LAMBDA h : h \in new)
      cl == SelectSeq(seq, LAMBDA h : h[1] \in DOMAIN st.keys)
      kv == SelectSeq(seq, LAMBDA h : h[1] \notin DOMAIN st.keys)
  IN [tog |-> (grp \ kept) \cup {NumberOf(st, h) : h \in known},
      clone |-> [j \in 1..Len(cl) |-> [kn |-> st.keys[cl[j][1]], v |-> cl[j][2]]],
      kvsto |-> kv, eref |-> SelectSeq(order, LAMBDA h : h \in once)]
Read(st, o) ==
  LET cl == [j \in 1..Len(o.clone) |-> <<KeyOf(st, o.clone[j].kn), o.clone[j].v>>] IN
  [tog |-> o.tog, lits |-> cl \o o.kvsto \o o.eref, later |-> cl \o o.kvsto]

Orders == UNION { {s \in [1..m -> 1..Len(Universe)] : \A i, j \in 1..m : i # j => s[i] # s[j]} : m \in 0..MaxSet }
HdrSeq(o) == [i \in 1..Len(o) |-> Universe[o[i]]]
Nothing == [tog |-> {}, clone |-> <<>>, kvsto |-> <<>>, eref |-> <<>>]

Init == /\ enc = NewStore /\ dec = NewStore /\ ops = Nothing /\ got = {} /\ last = <<{}, 0>> /\ hist = <<>>
Send(g, o) ==
  /\ Len(hist) < MaxDepth
  /\ LET e0 == Enter(enc, g)
         p == Strategy(e0, ToSet(HdrSeq(o)), HdrSeq(o))
         ex == Read(e0, p)
         d0 == Enter(dec, g)
         dx == Read(d0, p)
         d1 == Toggled(d0, dx)
     IN /\ ops' = p
        /\ enc' = Execute(Toggled(e0, ex), ex, Cfg)
        /\ got' = Meaning(d1, dx)
        /\ dec' = Execute(d1, dx, Cfg)
  /\ last' = <<ToSet(HdrSeq(o)), g>>
  /\ hist' = Append(hist, <<g, o>>)
  /\ IF Emit THEN PrintT("HIST " \o ToJson(Append(hist, <<g, o>>))) ELSE TRUE
Next == \E g \in Gids : \E o \in Orders : Send(g, o)
Spec == Init /\ [][Next]_vars
View == <<enc, dec, Len(hist)>>

StepRoundTrip == [][got' = last'[1]]_vars
StepInSync    == [][enc' = dec']_vars
StepStoreOk   == [][StoreOk(dec', Cfg)]_vars
\* an entry belongs to one group only once it has been used
StepOneGroup  == [][\A g, h \in DOMAIN dec'.groups : g # h => dec'.groups[g] \cap dec'.groups[h] = {}]_vars
\* repeating the last header set for its group, all of it stored, costs no operation
StepSilent    == [][(last' = last /\ hist # <<>> /\ \A h \in last[1] : NumberOf(enc, h) # -1 /\ h[1] \notin Ephemeral)
                     => ops' = Nothing]_vars
=============================================================================
