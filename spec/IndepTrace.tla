------------------------------ MODULE IndepTrace ------------------------------
(* Recorded scenarios: what every instance did alone, in a fresh process, and   *)
(* every call of the run with all of them.  The instances of the specification  *)
(* are Interleave's: an instance's k-th result is a function of its own calls.  *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT Watch
VARIABLES l, solo, pos, err, cov
vars == <<l, solo, pos, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
Init == l = 1 /\ solo = <<>> /\ pos = <<>> /\ err = <<>>
        /\ cov = [new |-> 0, n |-> 0, c |-> 0, d |-> 0, refuses |-> 0, skip |-> 0]
S == solo[Ev.i]
Want == CASE Ev.op = "n" -> [exc |-> S.new, r |-> <<>>] [] Ev.op = "c" -> S.c[Ev.k] [] Ev.op = "d" -> S.d[Ev.k]
Verdict ==
  IF Ev.ev = "new" THEN ""
  ELSE IF Ev.exc = "hangs" THEN "call-hangs"
  ELSE IF Ev.op # "n" /\ Ev.k # pos[Ev.i][Ev.op] + 1 THEN "driver-order"
  ELSE IF Ev.exc # Want.exc THEN "failure-depends-on-others"
  ELSE IF Ev.r # Want.r THEN (IF Ev.op = "c" THEN "output-depends-on-others" ELSE "decoding-depends-on-others")
  ELSE ""
Bump(S1) == cov' = [k \in DOMAIN cov |-> IF k \in S1 THEN cov[k] + 1 ELSE cov[k]]
Step ==
  /\ l <= N /\ err = <<>>
  /\ IF Verdict \in Watch THEN err' = <<Verdict, l, IF Ev.ev = "call" THEN Ev.i ELSE 0>> /\ UNCHANGED <<l, solo, pos, cov>>
     ELSE /\ l' = l + 1 /\ UNCHANGED err
          /\ IF Ev.ev = "new" THEN /\ solo' = Ev.solo /\ pos' = [i \in 1..Len(Ev.solo) |-> [c |-> 0, d |-> 0]] /\ Bump({"new"})
             ELSE /\ UNCHANGED solo
                  /\ pos' = IF Ev.op = "n" THEN pos ELSE [pos EXCEPT ![Ev.i][Ev.op] = @ + 1]
                  /\ Bump({Ev.op} \cup IF Ev.exc # "" THEN {"refuses"} ELSE {})
Spec == Init /\ [][Step]_vars
View == <<l, pos, err>>
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]
Done == l > N => PrintT("DONE " \o ToJson(cov))
=============================================================================
