------------------------------ MODULE CcParseTrace ------------------------------
(* Conformance of the C++ text parser: a text is a sequence of lines; the lines   *)
(* of a message are "name: value", an empty line ends it, and requests and        *)
(* responses alternate.  The name ends at the first colon after the first         *)
(* character, so that names like ":path" are possible.                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANT Watch
VARIABLES l, err, cov
vars == <<l, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]

\* the lines of a text; what follows the last line feed is a line only if it is not empty
Breaks(t) == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : t[k] = 10)
Lines(t) ==
  LET b == <<0>> \o Breaks(t)
      piece(k) == SubSeq(t, b[k] + 1, IF k < Len(b) THEN b[k + 1] - 1 ELSE Len(t))
      all == [k \in 1..Len(b) |-> piece(k)]
  IN IF all[Len(all)] = <<>> THEN SubSeq(all, 1, Len(all) - 1) ELSE all

Colon(x) == LET S == {k \in 2..Len(x) : x[k] = 58} IN
            IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
GoodLine(x) == LET k == Colon(x) IN k > 0 /\ k < Len(x) /\ x[k + 1] = 32
Pair(x) == <<SubSeq(x, 1, Colon(x) - 1), SubSeq(x, Colon(x) + 2, Len(x))>>

\* [ok, done : messages that were ended, cur : the pairs of the one that was not]
Read(t) ==
  FoldLeft(LAMBDA a, x : IF ~a.ok THEN a
                         ELSE IF x = <<>> THEN [a EXCEPT !.done = Append(@, a.cur), !.cur = <<>>]
                         ELSE IF ~GoodLine(x) THEN [a EXCEPT !.ok = FALSE]
                         ELSE [a EXCEPT !.cur = Append(@, Pair(x))],
           [ok |-> TRUE, done |-> <<>>, cur |-> <<>>], Lines(t))
Messages(r) == IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)
Every(ms, first) == [k \in 1..((Len(ms) - first) \div 2 + 1) |-> ms[2 * k - 2 + first]]
\* (an empty message at the end is the same as none: a response may have been begun)
RECURSIVE Trim(_)
Trim(ms) == IF ms = <<>> \/ ms[Len(ms)] # <<>> THEN ms ELSE Trim(SubSeq(ms, 1, Len(ms) - 1))

Verdict ==
  IF Ev.exc # "" THEN "parser-" \o Ev.exc
  ELSE IF Ev.used THEN IF Ev.ret = -1 /\ Ev.kept THEN "" ELSE "filled-lists-accepted"
  ELSE CHOOSE v \in { LET ms == Messages(r) IN
         IF ~r.ok THEN IF Ev.ret = 0 THEN "" ELSE "malformed-line-accepted"
         ELSE IF Ev.ret # 1 THEN "text-rejected"
         ELSE IF Trim(Ev.reqs) # Trim(Every(ms, 1)) THEN "requests-differ"
         ELSE IF Trim(Ev.ress) # Trim(Every(ms, 2)) THEN "responses-differ"
         ELSE IF (\A k \in 1..Len(ms) : ms[k] # <<>>) /\ Len(Ev.reqs) # (Len(ms) + 1) \div 2 THEN "number-of-requests"
         ELSE "" : r \in {Read(Ev.text)} } : TRUE

Init == l = 1 /\ err = <<>> /\ cov = [new |-> 0, text |-> 0, bad |-> 0, messages |-> 0, used |-> 0]
Step == /\ l <= N /\ err = <<>>
        /\ \E v \in {Verdict} :
             IF v # "" /\ v \in Watch THEN err' = <<v, l>> /\ UNCHANGED <<l, cov>>
             ELSE /\ l' = l + 1 /\ UNCHANGED err
                  /\ cov' = [cov EXCEPT !.new = @ + 1, !.text = @ + 1, !.used = @ + (IF Ev.used THEN 1 ELSE 0),
                                        !.bad = @ + (IF Ev.ret = 0 THEN 1 ELSE 0), !.messages = @ + Len(Ev.reqs) + Len(Ev.ress)]
Spec == Init /\ [][Step]_vars
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]
Done == l > N => PrintT("DONE " \o ToJson(cov))
=============================================================================
