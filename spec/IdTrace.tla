------------------------------- MODULE IdTrace -------------------------------
(* Recorded histories of the identifier stores of the code base.  An event has  *)
(* the store it is about and the identifiers handed out or given back.          *)
EXTENDS IdStore, Sequences, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils
CONSTANT Watch
VARIABLES l, stores, err, cov
vars == <<l, stores, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
Init == l = 1 /\ stores = <<>> /\ err = <<>>
        /\ cov = [new |-> 0, get |-> 0, done |-> 0, reused |-> 0, full |-> 0, zero |-> 0, skip |-> 0]
S == stores[Ev.s]
Verdict ==
  IF Ev.ev = "new" THEN IF Ev.exc # "" THEN "constructor-" \o Ev.exc ELSE ""
  ELSE IF Ev.exc # "" THEN (IF Ev.ev = "get" THEN "get-" ELSE "done-") \o Ev.exc
  ELSE IF Ev.ev = "done" THEN ""
  ELSE LET bad == {k \in 1..Len(Ev.ids) : ~InRange(S, Ev.ids[k])} IN
       IF bad # {} THEN "out-of-range"
       ELSE IF \E k \in 1..Len(Ev.ids) : Ev.ids[k] \in S.used THEN "in-use"
       ELSE IF Cardinality(ToSet(Ev.ids)) < Len(Ev.ids) THEN "in-use"
       ELSE ""
Bump(add) == cov' = [k \in DOMAIN cov |-> IF k \in DOMAIN add THEN cov[k] + add[k] ELSE cov[k]]
After == IF Ev.ev = "new" THEN [k \in 1..Ev.count |-> NewStore(Ev.max)]
         ELSE IF Ev.ev = "get" THEN [stores EXCEPT ![Ev.s].used = @ \cup ToSet(Ev.ids)]
         ELSE [stores EXCEPT ![Ev.s].used = @ \ ToSet(Ev.ids)]
Step ==
  /\ l <= N /\ err = <<>>
  /\ IF stores = <<>> /\ Ev.ev # "new" THEN l' = l + 1 /\ Bump([skip |-> 1]) /\ UNCHANGED <<stores, err>>
     ELSE IF Verdict \in Watch THEN err' = <<Verdict, l>> /\ UNCHANGED <<l, stores, cov>>
     ELSE IF Verdict # "" THEN l' = l + 1 /\ stores' = <<>> /\ UNCHANGED err /\ Bump([skip |-> 1])
     ELSE /\ l' = l + 1 /\ UNCHANGED err /\ stores' = After
          /\ Bump(IF Ev.ev = "new" THEN [new |-> 1]
                  ELSE IF Ev.ev = "done" THEN [done |-> Len(Ev.ids)]
                  ELSE [get |-> Len(Ev.ids), zero |-> IF \E k \in 1..Len(Ev.ids) : Ev.ids[k] = 0 THEN 1 ELSE 0,
                        full |-> IF Full(After[Ev.s]) THEN 1 ELSE 0,
                        reused |-> Ev.again])
Spec == Init /\ [][Step]_vars
View == <<l, err>>
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]
Done == l > N => PrintT("DONE " \o ToJson(cov))
=============================================================================
