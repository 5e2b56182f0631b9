------------------------------ MODULE ForkTrace ------------------------------
(* Conformance of the fork codec: per message, what the external process        *)
(* received, what it answered (payload and framing are the specification's),    *)
(* and what compress returned.                                                  *)
EXTENDS Http1, Json, IOUtils
CONSTANT Watch
VARIABLES l, mode, err, cov
vars == <<l, mode, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
Init == l = 1 /\ mode = "text" /\ err = <<>>
        /\ cov = [new |-> 0, msg |-> 0, text |-> 0, bin |-> 0, empty |-> 0, large |-> 0, chunked |-> 0, sample |-> 0, skip |-> 0]
Num8(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
Wire(r) == IF mode = "bin" THEN Num8(Len(r)) \o r ELSE r \o Ev.blank
Verdict ==
  IF Ev.ev = "new" THEN (IF Ev.exc # "" THEN "constructor-" \o Ev.exc ELSE "")
  ELSE IF Ev.exc # "" THEN "compress-" \o Ev.exc
  ELSE IF Ev.mut THEN "input-changed"
  ELSE IF Ev.sample THEN
       \* the sample process answers with the request without its empty line
       TextVerdict(Ev.ret \o sCRLF, Utf8Headers(Ev.hdrs), Default1, ToSet(Ev.multi))
  ELSE LET v == TextVerdict(Ev.seen, Utf8Headers(Ev.hdrs), Default1, ToSet(Ev.multi)) IN
       IF v # "" THEN v
       ELSE IF Ev.wire # Wire(Ev.reply) THEN "driver-framing"
       ELSE IF Ev.ret # Ev.reply THEN "reply-differs"
       ELSE ""
Bump(S) == cov' = [k \in DOMAIN cov |-> IF k \in S THEN cov[k] + 1 ELSE cov[k]]
Step ==
  /\ l <= N /\ err = <<>>
  /\ IF mode = "dead" /\ Ev.ev # "new" THEN l' = l + 1 /\ Bump({"skip"}) /\ UNCHANGED <<mode, err>>
     ELSE IF Verdict \in Watch THEN err' = <<Verdict, l>> /\ UNCHANGED <<l, mode, cov>>
     ELSE /\ l' = l + 1 /\ UNCHANGED err
          /\ mode' = IF Verdict # "" THEN "dead" ELSE IF Ev.ev = "new" THEN Ev.mode ELSE mode
          /\ Bump(IF Verdict # "" THEN {"skip"} ELSE IF Ev.ev = "new" THEN {"new"}
                  ELSE {"msg", mode} \cup (IF Ev.sample THEN {"sample"} ELSE {})
                       \cup (IF ~Ev.sample /\ Ev.reply = <<>> THEN {"empty"} ELSE {})
                       \cup (IF ~Ev.sample /\ Len(Ev.reply) > 4096 THEN {"large"} ELSE {})
                       \cup (IF ~Ev.sample /\ Ev.pieces > 1 THEN {"chunked"} ELSE {}))
Spec == Init /\ [][Step]_vars
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]
Done == l > N => PrintT("DONE " \o ToJson(cov))
=============================================================================
