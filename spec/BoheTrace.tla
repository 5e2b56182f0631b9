------------------------------ MODULE BoheTrace ------------------------------
(* Conformance of the binary optimised header encodings:                       *)
(*   enc    one value given to the encoder of its name (bohe, delta_bohe,       *)
(*          delta2_bohe)                                                        *)
(*   carry  the same, and the first frame of that codec with this header alone  *)
(*   frame  one header set compressed by the bohe codec, read bit by bit        *)
EXTENDS Bohe, BoheStatic, DeltaStatic, HuffTree, Json, IOUtils
CONSTANT Watch
VARIABLES l, pos, left, tags, err, cov        \* pos: next bit of the frame being read; left: headers not met yet
vars == <<l, pos, left, tags, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
Kinds == {"new", "enc", "carry", "frame", "date", "number", "accept", "tag", "setcookie", "cookie", "control", "method", "p3p",
          "text", "registered", "literal", "multi", "typed", "zero", "skip"}
Init == l = 1 /\ pos = 0 /\ left = {} /\ tags = {} /\ err = <<>> /\ cov = [k \in Kinds |-> 0]

\* ---- frames: <<registered number or literal name, flags, length, value>> ...
BitsAt(f, p, n) == FoldLeft(LAMBDA a, k : 2 * a + BitAt(f, p + k - 1), 0, [k \in 1..n |-> k])
TextAt(f, p, n) == [k \in 1..n |-> BitsAt(f, p + 8 * (k - 1), 8)]
NoField == [ok |-> FALSE, name |-> <<>>, typed |-> FALSE, multi |-> FALSE, val |-> <<>>, next |-> 0, reg |-> FALSE]
HuffAt(f, p, n, req) ==       \* a coded text of n bytes, of which the last may be incomplete
  LET r == HuffWalk(IF req THEN HuffReq1 ELSE HuffRes1, f, [done |-> FALSE, node |-> 1, p |-> p, val |-> <<>>],
                    Min2(8 * Len(f), p + 8 * n - 1)) IN
  IF r.done /\ (r.p - p + 7) \div 8 = n THEN [ok |-> TRUE, val |-> r.val, next |-> r.p] ELSE NoVal
\* flags and value of a field whose name ended at bit p - 1
Body(f, p, name, reg, req) ==
  LET typed == reg /\ name \in Typed
      flags == IF reg THEN (IF typed THEN 2 ELSE 1) ELSE 2
      at == p + flags
      marked == flags = 2 /\ BitAt(f, p) = 1
  IN IF at + 21 > 8 * Len(f) THEN NoField
     ELSE LET n == BitsAt(f, at, 22)
              v == IF typed THEN (IF at + 21 + 8 * n > 8 * Len(f) THEN NoVal
                                  ELSE [ok |-> TRUE, val |-> TextAt(f, at + 22, n), next |-> at + 22 + 8 * n])
                   ELSE HuffAt(f, at + 22, n, req)
          IN IF ~v.ok \/ marked # typed THEN NoField
             ELSE [ok |-> TRUE, name |-> name, typed |-> typed, multi |-> BitAt(f, at - 1) = 1, val |-> v.val,
                   next |-> v.next, reg |-> reg]
Field(f, p, req) ==
  LET id == BitsAt(f, p, 8) IN
  IF id >= 128
  THEN IF p + 7 + 8 * (id - 128) + 24 > 8 * Len(f) THEN NoField
       ELSE Body(f, p + 8 + 8 * (id - 128), TextAt(f, p + 8, id - 128), FALSE, req)
  ELSE IF id = 0 \/ id > Len(Registered) THEN NoField
  ELSE Body(f, p + 8, Registered[id], TRUE, req)
Base == IF Ev.variant = "delta2_bohe" THEN Ev.year - (Ev.year % 21) ELSE 1990      \* a sliding epoch
Functional(S) == \A a, b \in S : (a[1] = b[1]) <=> (a[2] = b[2])
NewTags(n, v, e) == IF n \in TagNames /\ DigestsOK(v, e) THEN Digests(v, e) ELSE {}
EncVerdict ==
  IF Ev.exc # "" THEN "enc-raises"
  ELSE IF ~Denotes(Ev.key, Ev.val, Ev.out, Ev.variant # "delta2_bohe" \/ Ev.req, Base) THEN "enc-meaning"
  ELSE IF ~Functional(tags \cup NewTags(Ev.key, Ev.val, Ev.out)) THEN "enc-tags"
  ELSE ""
Carried(f, v) == \E p \in 1..(8 * (Len(f) - Len(v)) + 1) : \A k \in 1..Len(v) : BitsAt(f, p + 8 * (k - 1), 8) = v[k]
CarryVerdict == IF EncVerdict # "" THEN EncVerdict
                ELSE IF Ev.out # <<>> /\ ~Carried(Ev.frame, Ev.out) THEN "carry-missing" ELSE ""
FieldVerdict(x) ==
  IF ~x.ok THEN "bohe-unreadable"
  ELSE IF x.name \notin left THEN "bohe-names"
  ELSE IF IF x.typed THEN ~Denotes(x.name, Get(Ev.hdrs, x.name), x.val, TRUE, 1990) ELSE x.val # Get(Ev.hdrs, x.name) THEN "bohe-value"
  ELSE IF x.multi # (0 \in ToSet(Get(Ev.hdrs, x.name))) THEN "bohe-multiple"
  ELSE IF ~x.reg /\ x.name \in ToSet(Registered) THEN "bohe-not-registered"
  ELSE IF x.typed /\ ~Functional(tags \cup NewTags(x.name, Get(Ev.hdrs, x.name), x.val)) THEN "enc-tags"
  ELSE ""
EndVerdict ==
  IF \E q \in pos..(8 * Len(Ev.out)) : BitAt(Ev.out, q) # 0 THEN "bohe-unreadable"
  ELSE IF left # {} THEN "bohe-names" ELSE ""

KindOf(n) == CASE n \in DateNames -> "date" [] n \in NumberNames -> "number" [] n \in AcceptNames -> "accept"
               [] n \in TagNames -> "tag" [] n = sSetCookie -> "setcookie" [] n = Cookie -> "cookie"
               [] n = sControl -> "control" [] n = sMethod -> "method" [] n = sP3P -> "p3p" [] OTHER -> "text"
Bump(ks) == cov' = [k \in Kinds |-> IF k \in ks THEN cov[k] + 1 ELSE cov[k]]
Give(v) == err' = <<v, l>> /\ UNCHANGED <<l, pos, left, tags, cov>>
NextLine == l' = l + 1 /\ pos' = 0 /\ left' = {} /\ UNCHANGED err
NewHistory == Ev.ev = "new" /\ NextLine /\ tags' = {} /\ Bump({"new"})
Encoded ==
  /\ Ev.ev \in {"enc", "carry"}
  /\ \E v \in {IF Ev.ev = "enc" THEN EncVerdict ELSE CarryVerdict} :
       IF v \in Watch THEN Give(v)
       ELSE /\ NextLine
            /\ tags' = IF v = "" THEN tags \cup NewTags(Ev.key, Ev.val, Ev.out) ELSE tags
            /\ Bump(IF v = "" THEN {Ev.ev, KindOf(Ev.key)} \cup (IF Ev.out = <<0>> THEN {"zero"} ELSE {}) ELSE {"skip"})
Skip == NextLine /\ UNCHANGED tags /\ Bump({"skip"})
Begin ==
  /\ Ev.ev = "frame" /\ pos = 0
  /\ IF Ev.exc # "" THEN (IF "bohe-raises" \in Watch THEN Give("bohe-raises") ELSE Skip)
     ELSE pos' = 1 /\ left' = {Ev.hdrs[i][1] : i \in 1..Len(Ev.hdrs)} /\ UNCHANGED <<l, tags, err>> /\ Bump({"frame"})
OneField ==
  /\ Ev.ev = "frame" /\ pos > 0 /\ pos + 7 <= 8 * Len(Ev.out)
  /\ \E x \in {Field(Ev.out, pos, Ev.req)} : \E v \in {FieldVerdict(x)} :
       IF v \in Watch THEN Give(v)
       ELSE IF v # "" THEN Skip
       ELSE /\ pos' = x.next /\ left' = left \ {x.name} /\ UNCHANGED <<l, err>>
            /\ tags' = IF x.typed THEN tags \cup NewTags(x.name, Get(Ev.hdrs, x.name), x.val) ELSE tags
            /\ Bump((IF x.reg THEN {"registered"} ELSE {"literal"}) \cup (IF x.multi THEN {"multi"} ELSE {})
                    \cup (IF x.typed THEN {"typed"} ELSE {}))
EndFrame ==
  /\ Ev.ev = "frame" /\ pos > 0 /\ pos + 7 > 8 * Len(Ev.out)
  /\ \E v \in {EndVerdict} : IF v \in Watch THEN Give(v) ELSE IF v # "" THEN Skip ELSE NextLine /\ UNCHANGED <<tags, cov>>
Step == l <= N /\ err = <<>> /\ (NewHistory \/ Encoded \/ Begin \/ OneField \/ EndFrame)
Spec == Init /\ [][Step]_vars
Accepted == err = <<>>
Shown == [l |-> l, pos |-> pos, err |-> err]
Done == l > N => PrintT("DONE " \o ToJson(cov))
=============================================================================
