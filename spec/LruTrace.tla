-------------------------------- MODULE LruTrace --------------------------------
(* Conformance of the real LruStorage: recorded calls with their results, the     *)
(* evictions reported through the callback, and probes of lookups and searches.   *)
(* Ev.kref / Ev.vref : 0 a new string, -1 a string owned from outside, n > 0 the  *)
(* string of the n-th entry made.                                                 *)
EXTENDS Lru, TLC, Json, IOUtils
CONSTANT Watch
VARIABLES l, s, c, made, ok, err, cov
vars == <<l, s, c, made, ok, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
Outside == [s |-> 0, k |-> <<115, 116>>, v |-> <<105, 99>>, ki |-> 0, vi |-> 0]
NoC == [maxb |-> -1, maxn |-> -1, maxs |-> -1, off |-> 0]

Init == /\ l = 1 /\ s = EmptyLru(NoC) /\ c = NoC /\ made = <<>> /\ ok = TRUE /\ err = <<>>
        /\ cov = [new |-> 0, insert |-> 0, refused |-> 0, store |-> 0, reserve |-> 0, pop |-> 0, evicted |-> 0,
                  probe |-> 0, shared |-> 0, wrapped |-> 0, skip |-> 0]
Bump(fs, n) == cov' = [k \in DOMAIN cov |-> IF k \in fs THEN cov[k] + (IF k = "evicted" THEN n ELSE 1) ELSE cov[k]]
Fail(clause) ==
  IF clause \in Watch THEN err' = <<clause, l>> /\ UNCHANGED <<l, s, c, made, ok, cov>>
  ELSE /\ ok' = FALSE /\ l' = l + 1 /\ Bump({"skip"}, 0) /\ UNCHANGED <<s, c, made, err>>

New == /\ err = <<>> /\ l <= N /\ Ev.ev = "new"
       /\ c' = [maxb |-> Ev.maxb, maxn |-> Ev.maxn, maxs |-> Ev.maxs, off |-> Ev.off]
       /\ s' = EmptyLru(c') /\ made' = <<>> /\ ok' = TRUE /\ l' = l + 1 /\ Bump({"new"}, 0) /\ UNCHANGED err
Skip == /\ err = <<>> /\ l <= N /\ ~ok /\ Ev.ev # "new" /\ l' = l + 1 /\ UNCHANGED <<s, c, made, ok, err, cov>>

From(r) == IF r = -1 THEN Outside ELSE made[r]
Made == LET n == Len(made) + 1 IN
  [s |-> 0, k |-> IF Ev.kref = 0 THEN Ev.k ELSE From(Ev.kref).k, v |-> IF Ev.vref = 0 THEN Ev.v ELSE From(Ev.vref).v,
   ki |-> IF Ev.kref = 0 THEN 2*n - 1 ELSE From(Ev.kref).ki, vi |-> IF Ev.vref = 0 THEN 2*n ELSE From(Ev.vref).vi]
Said(out) == [i \in 1..Len(out) |-> <<out[i].s, out[i].k, out[i].v>>]
Op == /\ err = <<>> /\ ok /\ l <= N /\ Ev.ev \in {"insert", "store", "reserve", "pop"}
      /\ LET e == IF Ev.ev = "pop" THEN Outside ELSE Made
             r == IF Ev.ev = "pop"
                  THEN IF s.ring = <<>> THEN [s |-> s, ok |-> FALSE, out |-> <<>>]
                       ELSE [s |-> Pop(s), ok |-> TRUE, out |-> <<Head(s.ring)>>]
                  ELSE IF Ev.ev = "store" THEN [s |-> s, ok |-> Fits(s, e, c), out |-> <<>>]
                  ELSE Room(s, e, Ev.n, c, <<>>)
             s1 == IF Ev.ev \in {"insert", "store"} /\ r.ok THEN Push(r.s, e, c) ELSE r.s
         IN IF Ev.exc # "" THEN Fail("operation-" \o Ev.exc)
            ELSE IF Ev.ok # r.ok THEN Fail("wrong-answer")
            ELSE IF Ev.out # Said(r.out) THEN Fail("evictions-differ")
            ELSE IF Ev.len # Len(s1.ring) THEN Fail("item-count-differs")
            ELSE IF Ev.bytes # s1.bytes THEN Fail("byte-count-differs")
            ELSE IF Ev.ev \in {"insert", "store"} /\ r.ok /\ Ev.seq # r.s.next THEN Fail("number-differs")
            ELSE /\ s' = s1 /\ made' = IF Ev.ev = "pop" THEN made ELSE Append(made, e)
                 /\ l' = l + 1
                 /\ Bump({Ev.ev, "evicted"} \cup (IF r.ok THEN {} ELSE {"refused"})
                         \cup (IF Ev.ev # "pop" /\ (Ev.kref # 0 \/ Ev.vref # 0) THEN {"shared"} ELSE {})
                         \cup (IF s1.next < s.next THEN {"wrapped"} ELSE {}), Len(r.out))
                 /\ UNCHANGED <<c, ok, err>>

\* Ev.looks : <<number, found, key, value, position>>;  Ev.finds : <<key, value, key entry's number, exact entry's number>> (-1: none)
LookOk(x) == IF x[1] \in Live(s)
             THEN x[2] = 1 /\ x[3] = At(s, x[1]).k /\ x[4] = At(s, x[1]).v /\ x[5] = PosOf(s, x[1])
             ELSE x[2] = 0
WithKey(k) == {q \in Live(s) : At(s, q).k = k}
WithBoth(k, v) == {q \in Live(s) : At(s, q).k = k /\ At(s, q).v = v}
FindOk(x) == /\ IF WithKey(x[1]) = {} THEN x[3] = -1 ELSE x[3] \in WithKey(x[1])
             /\ IF WithBoth(x[1], x[2]) = {} THEN x[4] = -1 ELSE x[4] \in WithBoth(x[1], x[2])
Probe == /\ err = <<>> /\ ok /\ l <= N /\ Ev.ev = "probe"
         /\ IF \E i \in 1..Len(Ev.looks) : ~LookOk(Ev.looks[i]) THEN Fail("lookup-differs")
            ELSE IF \E i \in 1..Len(Ev.finds) : ~FindOk(Ev.finds[i]) THEN Fail("search-differs")
            ELSE l' = l + 1 /\ Bump({"probe"}, 0) /\ UNCHANGED <<s, c, made, ok, err>>
Next == New \/ Skip \/ Op \/ Probe
Spec == Init /\ [][Next]_vars
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
Sound == Exact(s) /\ Within(s, c) /\ Numbered(s, c)
Done == l > N => PrintT("DONE " \o ToJson(cov))
=============================================================================
