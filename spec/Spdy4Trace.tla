------------------------------ MODULE Spdy4Trace ------------------------------
(* Conformance of the C++ SPDY4 encoder: every recorded frame is read byte by   *)
(* byte - frame header, operation lists, numbers, Huffman strings - and         *)
(* executed on the specification's own storage (Spdy4Store).  The group that    *)
(* results must hold exactly the lines of the header set, nothing that was      *)
(* stored may be sent as text, and the bytes stored are counted.                *)
EXTENDS Spdy4Store, Spdy4Static, HuffTree, TLC, Json, IOUtils
VARIABLES l, ph, pos, op, left, x, st, par, queue, hold, err, cov
vars == <<l, ph, pos, op, left, x, st, par, queue, hold, err, cov>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
F == Ev.frame
End == 8 * Len(F)
G == Ev.group
Wanted == Lines(Ev.hdrs)
NoOps == [tog |-> {}, clone |-> <<>>, kvsto |-> <<>>]

Init == /\ l = 1 /\ ph = "idle" /\ pos = 1 /\ op = 0 /\ left = 0 /\ x = NoOps /\ st = Blank
        /\ par = [bytes |-> 65536, vals |-> 1024, req |-> TRUE]
        /\ queue = <<>> /\ hold = {} /\ err = <<>>
        /\ cov = [new |-> 0, limits |-> 0, frame |-> 0, lone |-> 0, range |-> 0, clone |-> 0, kvsto |-> 0, full |-> 0,
                  evict |-> 0, forget |-> 0, trim |-> 0, over |-> 0, silent |-> 0, shared |-> 0, goneoff |-> 0, crumbs |-> 0]
Bump(fs) == cov' = [k \in DOMAIN cov |-> IF k \in fs THEN cov[k] + 1 ELSE cov[k]]
Fail(clause) == /\ err' = <<clause, l, pos>> /\ ph' = "dead"
                /\ UNCHANGED <<l, pos, op, left, x, st, par, queue, hold, cov>>

Setup ==
  /\ ph = "idle" /\ l <= N /\ Ev.ev \in {"new", "limits"}
  /\ \E s \in {IF Ev.ev = "new" THEN NewStore ELSE st} :
     IF Ev.exc # "" THEN Fail("raises-" \o Ev.exc)
     ELSE IF Ev.size # s.size THEN Fail("state-size")
     ELSE /\ st' = s
          /\ par' = [bytes |-> IF Ev.state >= 0 THEN Ev.state ELSE IF Ev.ev = "new" THEN 65536 ELSE par.bytes,
                     vals |-> IF Ev.vals >= 0 THEN Ev.vals ELSE IF Ev.ev = "new" THEN 1024 ELSE par.vals,
                     req |-> IF Ev.ev = "new" THEN Ev.req ELSE par.req]
          /\ l' = l + 1 /\ Bump({Ev.ev}) /\ UNCHANGED <<ph, pos, op, left, x, queue, hold, err>>

Begin ==
  /\ ph = "idle" /\ l <= N /\ Ev.ev = "frame"
  /\ IF Ev.exc # "" THEN Fail("raises-" \o Ev.exc)
     ELSE IF Len(F) < 8 THEN Fail("frame-header")
     ELSE IF F[3] # (IF Ev.ends THEN 1 ELSE 0) \/ F[8] # 8 THEN Fail("frame-header")
     ELSE IF F[7] < 128 \/ F[4] + 256 * F[5] + 65536 * F[6] + 16777216 * (F[7] - 128) # Ev.stream THEN Fail("frame-header")
     ELSE /\ st' = Enter(st, G) /\ pos' = 65 /\ left' = 0 /\ op' = 0 /\ x' = NoOps /\ ph' = "parse"
          /\ UNCHANGED <<l, par, queue, hold, err, cov>>

\* ---- reading: pos counts bits from 1 ------------------------------------
Aligned(p) == 8 * ((p + 6) \div 8) + 1
Octet(p) == F[((p - 1) \div 8) + 1]
Short(p0) == LET p == Aligned(p0) IN
  IF p + 15 > End THEN Bad ELSE [ok |-> TRUE, val |-> Octet(p) + 256 * Octet(p + 8), next |-> p + 16]
Str(p) ==
  IF p > End THEN Bad
  ELSE LET r == HuffWalk(IF par.req THEN Spdy4Req ELSE Spdy4Res, F,
                         [done |-> FALSE, node |-> 1, p |-> p, val |-> <<>>], End)
       IN IF r.done THEN [ok |-> TRUE, val |-> r.val, next |-> r.p] ELSE Bad
List ==
  /\ ph = "parse" /\ left = 0 /\ Aligned(pos) <= End
  /\ \E p \in {Aligned(pos)} :
     IF p + 15 > End THEN Fail("truncated")
     ELSE IF Octet(p) \notin 0..3 \/ Octet(p + 8) = 0 THEN Fail("unknown-operation")
     ELSE /\ op' = Octet(p) /\ left' = Octet(p + 8) /\ pos' = p + 16
          /\ Bump(IF Octet(p + 8) = 255 THEN {"full"} ELSE {})
          /\ UNCHANGED <<l, ph, x, st, par, queue, hold, err>>
Did(y, next, what) == /\ x' = y /\ pos' = next /\ left' = left - 1 /\ Bump({what})
                      /\ UNCHANGED <<l, ph, op, st, par, queue, hold, err>>
Toggle ==
  /\ ph = "parse" /\ left > 0 /\ op \in {2, 3}
  /\ \E i \in {Short(pos)} : \E j \in {IF op = 2 THEN i ELSE IF i.ok THEN Short(i.next) ELSE Bad} :
     IF ~j.ok THEN Fail("truncated")
     ELSE IF i.val > j.val \/ j.val > st.nextv THEN Fail("number-not-stored")
     ELSE IF \E y \in i.val..j.val : ~IsStored(st, y) THEN Fail("number-not-stored")
     ELSE IF (i.val..j.val) \cap x.tog # {} THEN Fail("toggled-twice")
     ELSE Did([x EXCEPT !.tog = @ \cup (i.val..j.val)], j.next, IF op = 2 THEN "lone" ELSE "range")
Clone ==
  /\ ph = "parse" /\ left > 0 /\ op = 0
  /\ \E i \in {Short(pos)} : \E v \in {IF i.ok THEN Str(i.next) ELSE Bad} :
     IF ~v.ok THEN Fail("truncated")
     ELSE IF \A k \in DOMAIN st.keys : st.keys[k] # i.val THEN Fail("number-not-stored")
     ELSE Did([x EXCEPT !.clone = Append(@, <<KeyOf(st, i.val), v.val>>)], v.next, "clone")
Text ==
  /\ ph = "parse" /\ left > 0 /\ op = 1
  /\ \E k \in {Str(pos)} : \E v \in {IF k.ok THEN Str(k.next) ELSE Bad} :
     IF ~v.ok THEN Fail("truncated")
     ELSE Did([x EXCEPT !.kvsto = Append(@, <<k.val, v.val>>)], v.next, "kvsto")

\* ---- executing ------------------------------------------------------------
Finish ==
  /\ ph = "parse" /\ left = 0 /\ Aligned(pos) = End + 1
  /\ \E want \in {Wanted} : \E lits \in {x.clone \o x.kvsto}, s1 \in {Toggled(st, G, want, x.tog)} :
     IF Means(s1, G) \cup ToSet(lits) # ToSet(want) THEN Fail("headers-differ")
     ELSE IF \/ Cardinality(ToSet(lits)) # Len(lits) \/ (\E i \in 1..Len(lits) : Holds(st, lits[i]))
             \/ (\E i \in 1..Len(x.kvsto) : x.kvsto[i][1] \in DOMAIN st.keys)
          THEN Fail("text-repeated")
     ELSE /\ st' = s1 /\ ph' = "store" /\ queue' = lits
          /\ hold' = {want[i][1] : i \in 1..Len(want)} \cap DOMAIN st.keys
          /\ Bump({"frame"} \cup (IF x = NoOps THEN {"silent"} ELSE {})
                  \cup (IF Len(want) > Len(Ev.hdrs) THEN {"crumbs"} ELSE {})
                  \cup (IF \E g \in DOMAIN s1.groups : g # G /\ s1.groups[g] \cap s1.groups[G] # {} THEN {"shared"} ELSE {}))
          /\ UNCHANGED <<l, pos, op, left, x, par, err>>
K == Head(queue)[1]
V == Head(queue)[2]
Same == UNCHANGED <<l, pos, op, left, x, par, hold, err>>
Evict(h) == /\ st' = EvictOne(st, h)
            /\ Bump({"evict"} \cup (IF Cardinality(DOMAIN st'.keys) < Cardinality(DOMAIN st.keys) THEN {"forget"} ELSE {})
                    \cup (IF Head(st.lru) \in x.tog THEN {"goneoff"} ELSE {})
                    \cup (IF ph = "trim" THEN {"trim"} ELSE {}))
Key == /\ ph = "store" /\ queue # <<>> /\ K \notin DOMAIN st.keys /\ Same /\ UNCHANGED <<ph, queue>>
       /\ IF Fits(st, Len(K), 0, par) THEN st' = AddKey(st, K) /\ UNCHANGED cov ELSE Evict(hold)
Val == /\ ph = "store" /\ queue # <<>> /\ K \in DOMAIN st.keys /\ Same /\ UNCHANGED ph
       /\ IF Fits(st, Len(V), 1, par) THEN st' = AddLine(st, G, Head(queue)) /\ queue' = Tail(queue) /\ UNCHANGED cov
          ELSE Evict(hold \cup {K}) /\ UNCHANGED queue
Full == /\ ph = "store" /\ queue = <<>> /\ ph' = "trim" /\ Same /\ UNCHANGED <<st, queue, cov>>
Trim_ == /\ ph = "trim"
         /\ IF ~Fits(st, 0, 0, par) THEN Evict({}) /\ UNCHANGED <<ph, queue>> /\ Same
            ELSE IF Ev.size # st.size THEN Fail("state-size")
            ELSE /\ l' = l + 1 /\ ph' = "idle"
                 /\ Bump(IF st.size > par.bytes \/ Cardinality(DOMAIN st.vals) > par.vals THEN {"over"} ELSE {})
                 /\ UNCHANGED <<pos, op, left, x, st, par, queue, hold, err>>

Next == Setup \/ Begin \/ List \/ Toggle \/ Clone \/ Text \/ Finish \/ Key \/ Val \/ Full \/ Trim_
Spec == Init /\ [][Next]_vars

Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
Limits == ph # "idle" \/ Fits(st, 0, 0, par) \/ l = 1 \/ Trace[l - 1].ev # "frame"
Done == (l > N /\ ph = "idle") => PrintT("DONE " \o ToJson(cov))
=============================================================================
