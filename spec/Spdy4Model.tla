------------------------------ MODULE Spdy4Model ------------------------------
(* Design model of the C++ SPDY4 codec: the encoder names the change of the     *)
(* group - toggles, clones of known names, literals - and a decoder that knows  *)
(* the limits (and the order of the header lines) follows.                      *)
EXTENDS Spdy4Store, Json, TLC
CONSTANTS Universe, Gids, Lim, MaxSet, MaxDepth, Emit
VARIABLES st, ph, queue, hold, g, want, ops, hist
vars == <<st, ph, queue, hold, g, want, ops, hist>>

Orders == UNION { {s \in [1..m -> 1..Len(Universe)] : \A i, j \in 1..m : i # j => s[i] # s[j]} : m \in 0..MaxSet }
Nothing == [tog |-> {}, clone |-> <<>>, kvsto |-> <<>>]
Init == /\ st = NewStore /\ ph = "idle" /\ queue = <<>> /\ hold = {} /\ g = 0 /\ want = <<>> /\ ops = Nothing /\ hist = <<>>

Strategy(s, h, lines) ==
  LET on(x) == {n \in DOMAIN s.vals : s.vals[n] = x}
      have == UNION {on(lines[i]) : i \in 1..Len(lines)}
      miss == SelectSeq(lines, LAMBDA x : ~Holds(s, x))
  IN [tog |-> (s.groups[h] \ have) \cup (have \ s.groups[h]),
      clone |-> SelectSeq(miss, LAMBDA x : x[1] \in DOMAIN s.keys),
      kvsto |-> SelectSeq(miss, LAMBDA x : x[1] \notin DOMAIN s.keys)]
Start(h, o) ==
  /\ ph = "idle" /\ Len(hist) < MaxDepth
  /\ \E lines \in {[i \in 1..Len(o) |-> Universe[o[i]]]}, s \in {Enter(st, h)} :
     \E p \in {Strategy(s, h, lines)} :
       /\ ops' = p /\ st' = Toggled(s, h, lines, p.tog)
       /\ hold' = {lines[i][1] : i \in 1..Len(lines)} \cap DOMAIN s.keys
       /\ queue' = p.clone \o p.kvsto /\ want' = lines
  /\ g' = h /\ ph' = "store"
  /\ hist' = Append(hist, <<h, o>>)
  /\ IF Emit THEN PrintT("HIST " \o ToJson(Append(hist, <<h, o>>))) ELSE TRUE
K == Head(queue)[1]
V == Head(queue)[2]
Key == /\ ph = "store" /\ queue # <<>> /\ K \notin DOMAIN st.keys
       /\ st' = IF Fits(st, Len(K), 0, Lim) THEN AddKey(st, K) ELSE EvictOne(st, hold)
       /\ UNCHANGED <<ph, queue, hold, g, want, ops, hist>>
Val == /\ ph = "store" /\ queue # <<>> /\ K \in DOMAIN st.keys
       /\ IF Fits(st, Len(V), 1, Lim) THEN st' = AddLine(st, g, Head(queue)) /\ queue' = Tail(queue)
          ELSE st' = EvictOne(st, hold \cup {K}) /\ UNCHANGED queue
       /\ UNCHANGED <<ph, hold, g, want, ops, hist>>
End == /\ ph = "store" /\ queue = <<>>
       /\ IF Fits(st, 0, 0, Lim) THEN ph' = "idle" /\ UNCHANGED st ELSE st' = EvictOne(st, {}) /\ UNCHANGED ph
       /\ UNCHANGED <<queue, hold, g, want, ops, hist>>
Next == (\E h \in Gids : \E o \in Orders : Start(h, o)) \/ Key \/ Val \/ End
Spec == Init /\ [][Next]_vars
View == <<st, ph, queue, hold, g, want, ops, Len(hist)>>

Sound == /\ StoreOk(st)
         /\ ph = "idle" => /\ KeysUsed(st) /\ Bounded(st, Lim)
                           /\ hist # <<>> => Means(st, g) = ToSet(want)
Ranged == Cardinality(DOMAIN st.vals) <= Cardinality(st.fixed) + Max2(Lim.vals, 0) + MaxSet
=============================================================================
