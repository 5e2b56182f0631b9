----------------------------- MODULE SimpleModel -----------------------------
(* Design model of the simple codec: both ends remember the last message; a      *)
(* header equal to its last value may be sent by reference, at most MaxRefs per  *)
(* message, and which ones is not determined.                                    *)
EXTENDS Util, TLC, Json
CONSTANTS Names, Values, MaxRefs, MaxDepth, Emit,
          Remember   \* "all" (what was sent) or "written" (a broken variant: references forgotten)
VARIABLES enc, dec, out, last, refs, hist
vars == <<enc, dec, out, last, refs, hist>>
\* a message is a partial function Names -> Values
Msgs == UNION {[S -> Values] : S \in SUBSET Names}
Init == enc = <<>> /\ dec = <<>> /\ out = <<>> /\ last = <<>> /\ refs = {} /\ hist = <<>>
Same(m) == {n \in DOMAIN m \cap DOMAIN enc : m[n] = enc[n]}
Send(m) ==
  /\ Len(hist) < MaxDepth
  /\ \E R \in {S \in SUBSET Same(m) : Cardinality(S) = Min2(MaxRefs, Cardinality(Same(m)))} :
       LET text == [n \in DOMAIN m \ R |-> m[n]]
           got == [n \in DOMAIN text \cup R |-> IF n \in R THEN dec[n] ELSE text[n]]
       IN /\ refs' = R /\ out' = got /\ dec' = IF Remember = "all" THEN got ELSE text
          /\ enc' = m
  /\ last' = m /\ hist' = Append(hist, m)
  /\ IF Emit THEN PrintT("HIST " \o ToJson(Append(hist, m))) ELSE TRUE
Next == \E m \in Msgs : Send(m)
Spec == Init /\ [][Next]_vars
View == <<enc, dec, Len(hist)>>
StepRoundTrip == [][out' = last' /\ Cardinality(refs') <= MaxRefs]_vars
InSync == dec = enc
=============================================================================
