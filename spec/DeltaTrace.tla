------------------------------ MODULE DeltaTrace ------------------------------
(* Conformance of the real delta codec: every recorded frame is read byte by    *)
(* byte - frame header, operation lists, numbers, Huffman strings - and         *)
(* executed on the specification's own storage (DeltaStore); the headers that   *)
(* result are compared with what was put in and with what the real decoder      *)
(* produced.                                                                    *)
EXTENDS DeltaStore, DeltaStatic, HuffTree, TLC, Json, IOUtils
CONSTANT Watch
VARIABLES l, ph, pos, op, left, x, st, par, queue, prev, err, cov,
          body        \* a block that spans several frames, as one frame; <<>>: the frame is whole
vars == <<l, ph, pos, op, left, x, st, par, queue, prev, err, cov, body>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
F == IF body = <<>> THEN Ev.frame ELSE body
End == Len(F)
SW == {32}
Sent == NormWith(Ev.hdrs, SW)
NoPrev == [hdrs |-> {}, gid |-> -1]

\* the frames of one block: all but the last are marked as unfinished, and their payloads belong together
RECURSIVE Payloads(_, _, _)
Payloads(f, p, acc) ==
  IF p + 8 > Len(f) THEN [ok |-> FALSE]
  ELSE LET n == f[p] * 256 + f[p + 1]  q == p + 9 + n IN
       IF q - 1 > Len(f) \/ ~(f[p + 2] \in {0, 1} /\ SubSeq(f, p + 3, p + 7) = <<128, 0, 4, 210, 8>>) \/ f[p + 8] # f[9] THEN [ok |-> FALSE]
       ELSE IF f[p + 2] = 1 THEN [ok |-> q = Len(f) + 1, body |-> IF p = 1 THEN <<>> ELSE SubSeq(f, 1, 9) \o acc \o SubSeq(f, p + 9, q - 1)]
       ELSE Payloads(f, q, acc \o SubSeq(f, p + 9, q - 1))

Init == /\ l = 1 /\ ph = "idle" /\ pos = 1 /\ op = 0 /\ left = 0 /\ x = NoOps /\ st = NewStore
        /\ par = [maxb |-> 0, maxe |-> 0, maxn |-> 65536, req |-> TRUE, fmt |-> TRUE]
        /\ queue = <<>> /\ prev = NoPrev /\ err = <<>> /\ body = <<>>
        /\ cov = [new |-> 0, frame |-> 0, toggl |-> 0, trang |-> 0, clone |-> 0, kvsto |-> 0, eref |-> 0,
                  store |-> 0, evict |-> 0, forget |-> 0, again |-> 0, wrap |-> 0, resent |-> 0, silent |-> 0, steal |-> 0,
                  full |-> 0, roundonly |-> 0, skip |-> 0]
Names == <<"toggl", "trang", "clone", "kvsto", "eref">>
Bump(fs) == cov' = [k \in DOMAIN cov |-> IF k \in fs THEN cov[k] + 1 ELSE cov[k]]
Fail(clause) ==
  IF clause \in Watch
  THEN /\ err' = <<clause, l, pos>> /\ ph' = "dead" /\ UNCHANGED <<l, pos, op, left, x, st, par, queue, prev, cov>>
  ELSE /\ ph' = "skip" /\ l' = l + 1 /\ Bump({"skip"})
       /\ UNCHANGED <<pos, op, left, x, st, par, queue, prev, err>>

New == /\ ph \in {"idle", "skip"} /\ l <= N /\ Ev.ev = "new"
       /\ IF Ev.exc # "" THEN Fail("constructor-" \o Ev.exc)
          ELSE /\ st' = NewStore /\ prev' = NoPrev
               /\ par' = [maxb |-> Ev.maxb, maxe |-> Ev.maxe, maxn |-> 65536, req |-> Ev.req, fmt |-> Ev.fmt]
               /\ l' = l + 1 /\ ph' = "idle" /\ Bump({"new"})
               /\ UNCHANGED <<pos, op, left, x, queue, err>>
Skip == /\ ph = "skip" /\ l <= N /\ Ev.ev # "new" /\ l' = l + 1
        /\ UNCHANGED <<ph, pos, op, left, x, st, par, queue, prev, err, cov>>

Begin ==
  /\ ph = "idle" /\ l <= N /\ Ev.ev \in {"frame", "feed"}
  /\ IF Ev.ev = "frame" /\ Ev.exc # "" THEN Fail("compress-" \o Ev.exc)
     ELSE IF Ev.ev = "frame" /\ Ev.dexc # "" THEN Fail("decompress-" \o Ev.dexc)
     ELSE IF Ev.ev = "frame" /\ Ev.mut THEN Fail("input-changed")
     ELSE IF Ev.ev = "frame" /\ NormWith(Ev.dec, SW) # Sent THEN Fail("decoded-differs")
     ELSE IF Ev.ev = "frame" /\ RepeatsWith(Ev.dec, Ev.hdrs, SW) THEN Fail("decoded-differs")
     ELSE IF ~par.fmt THEN /\ l' = l + 1 /\ Bump({"frame", "roundonly"})
                           /\ UNCHANGED <<ph, pos, op, left, x, st, par, queue, prev, err>>
     ELSE IF ~Payloads(Ev.frame, 1, <<>>).ok THEN Fail("frame-header")
     ELSE /\ st' = Enter(st, Ev.frame[9]) /\ pos' = 10 /\ left' = 0 /\ op' = 0 /\ x' = NoOps /\ ph' = "parse"
          /\ UNCHANGED <<l, par, queue, prev, err, cov>>
  /\ body' = IF ph' = "parse" THEN Payloads(Ev.frame, 1, <<>>).body ELSE <<>>

\* ---- reading ------------------------------------------------------------
Short(p) == IF p + 1 > End THEN Bad ELSE [ok |-> TRUE, val |-> F[p] * 256 + F[p + 1], next |-> p + 2]
Str(p) == ReadHuff(IF par.req THEN HuffReq1 ELSE HuffRes1, F, p, End)
List ==
  /\ ph = "parse" /\ left = 0 /\ pos <= End
  /\ IF pos + 1 > End THEN Fail("truncated")
     ELSE IF F[pos] \notin 1..5 THEN Fail("unknown-operation")
     ELSE /\ op' = F[pos] /\ left' = F[pos + 1] + 1 /\ pos' = pos + 2
          /\ Bump(IF F[pos + 1] = 255 THEN {"full"} ELSE {})
          /\ UNCHANGED <<l, ph, x, st, par, queue, prev, err>>
Did(y, next) == /\ x' = y /\ pos' = next /\ left' = left - 1 /\ Bump({Names[op]})
                /\ UNCHANGED <<l, ph, op, st, par, queue, prev, err>>
Toggle ==
  /\ ph = "parse" /\ left > 0 /\ op \in {1, 2}
  /\ LET i == Short(pos)
         j == IF op = 1 THEN i ELSE IF i.ok THEN Short(i.next) ELSE Bad
     IN IF ~j.ok THEN Fail("truncated")
        ELSE IF j.val > i.val \/ i.val - j.val > Len(st.ring) + Offset THEN Fail("number-not-stored")
        ELSE IF \E y \in j.val..i.val : ~IsStored(st, y) THEN Fail("number-not-stored")
        ELSE IF (j.val..i.val) \cap x.tog # {} THEN Fail("toggled-twice")
        ELSE Did([x EXCEPT !.tog = @ \cup (j.val..i.val)], j.next)
Clone ==
  /\ ph = "parse" /\ left > 0 /\ op = 3
  /\ LET i == Short(pos)
         v == IF i.ok THEN Str(i.next) ELSE Bad
     IN IF ~v.ok THEN Fail("truncated")
        ELSE IF \A k \in DOMAIN st.keys : st.keys[k] # i.val THEN Fail("number-not-stored")
        ELSE LET h == <<KeyOf(st, i.val), v.val>> IN
             Did([x EXCEPT !.lits = Append(@, h), !.later = Append(@, h)], v.next)
Text ==
  /\ ph = "parse" /\ left > 0 /\ op \in {4, 5}
  /\ LET k == Str(pos)
         v == IF k.ok THEN Str(k.next) ELSE Bad
     IN IF ~v.ok THEN Fail("truncated")
        ELSE Did([x EXCEPT !.lits = Append(@, <<k.val, v.val>>),
                           !.later = IF op = 5 THEN @ ELSE Append(@, <<k.val, v.val>>)], v.next)

\* ---- executing ----------------------------------------------------------
Never == {<<58, 112, 97, 116, 104>>, <<114, 101, 102, 101, 114, 101, 114>>}     \* :path, referer: sent whole every time
Resent == Ev.ev = "frame" /\ Sent = prev.hdrs /\ F[9] = prev.gid /\ Sent # {}
Silent == Resent /\ \A h \in Sent : h[1] \notin Never /\ NumberOf(st, h) # -1
Finish ==
  /\ ph = "parse" /\ left = 0 /\ pos = End + 1
  /\ LET s1 == Toggled(st, x)
         got == Meaning(s1, x)
         sent == IF Ev.ev = "frame" THEN Sent ELSE got
     IN IF got # sent THEN Fail("frame-means-other-headers")
        ELSE IF Ev.dexc # "" THEN Fail("decoder-rejects-legal-frame")
        ELSE IF NormWith(Ev.dec, SW) # sent THEN Fail("decoder-not-per-format")
        ELSE IF Resent /\ (\E i \in 1..Len(x.lits) : x.lits[i][1] \notin Never /\ NumberOf(st, x.lits[i]) # -1)
             THEN Fail("resend-repeats-text")
        ELSE IF Silent /\ x # NoOps THEN Fail("resend-not-silent")
        ELSE /\ st' = s1 /\ ph' = "store" /\ queue' = x.later
             /\ prev' = [hdrs |-> sent, gid |-> F[9]]
             /\ Bump({"frame"} \cup (IF Resent THEN {"resent"} ELSE {}) \cup (IF Silent THEN {"silent"} ELSE {}))
             /\ UNCHANGED <<l, pos, op, left, x, par, err>>

K == Head(queue)[1]
V == Head(queue)[2]
Same == UNCHANGED <<l, pos, op, left, x, par, prev, err>>
Take ==
  /\ ph = "store" /\ queue # <<>> /\ Same
  /\ IF K \notin DOMAIN st.keys THEN ph' = "key" /\ UNCHANGED <<st, queue, cov>>
     ELSE IF NumberOf(st, Head(queue)) # -1 THEN queue' = Tail(queue) /\ Bump({"again"}) /\ UNCHANGED <<st, ph>>
     ELSE ph' = "val" /\ UNCHANGED <<st, queue, cov>>
EvictKey == /\ ph = "key" /\ ~Fits(st, Len(K), 0, par) /\ st' = EvictOne(st, {})
            /\ Bump({"evict"} \cup IF Cardinality(DOMAIN st'.keys) < Cardinality(DOMAIN st.keys) THEN {"forget"} ELSE {})
            /\ Same /\ UNCHANGED <<ph, queue>>
PlaceKey == /\ ph = "key" /\ Fits(st, Len(K), 0, par) /\ st' = AddKey(st, K, par) /\ ph' = "val" /\ Same /\ UNCHANGED <<queue, cov>>
EvictVal == /\ ph = "val" /\ ~Fits(st, Len(V), 1, par) /\ st' = EvictOne(st, {K})
            /\ Bump({"evict"} \cup IF Cardinality(DOMAIN st'.keys) < Cardinality(DOMAIN st.keys) THEN {"forget"} ELSE {})
            /\ Same /\ UNCHANGED <<ph, queue>>
PlaceVal == /\ ph = "val" /\ Fits(st, Len(V), 1, par) /\ st' = AddVal(st, K, V, par) /\ ph' = "store" /\ queue' = Tail(queue)
            /\ Bump({"store"}) /\ Same
Leave == /\ ph = "store" /\ queue = <<>> /\ l' = l + 1 /\ ph' = "idle"
         /\ st' = Adjust(st, par)
         /\ Bump((IF st'.last < st.last THEN {"wrap"} ELSE {})
                 \cup IF \E g \in DOMAIN st.groups : g # st.gid /\ st'.groups[g] # st.groups[g] THEN {"steal"} ELSE {})
         /\ UNCHANGED <<pos, op, left, x, par, queue, prev, err>>

Next == Begin \/ /\ \/ New \/ Skip \/ List \/ Toggle \/ Clone \/ Text \/ Finish \/ Take
                    \/ EvictKey \/ PlaceKey \/ EvictVal \/ PlaceVal \/ Leave
                 /\ body' = IF l' = l THEN body ELSE <<>>
Spec == Init /\ [][Next]_vars

Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
Limits == ph # "idle" \/ (Len(st.ring) <= Max2(1, par.maxe) /\ (st.bytes <= par.maxb \/ Len(st.ring) <= 1))
Done == (l > N /\ ph \in {"idle", "skip"}) => PrintT("DONE " \o ToJson(cov))
=============================================================================
