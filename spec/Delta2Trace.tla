------------------------------ MODULE Delta2Trace ------------------------------
(* Conformance of the real delta2 codec: every recorded frame is read bit by     *)
(* bit - frame header, operation lists, indices, Huffman strings - and executed  *)
(* on the specification's own storage and header groups (Delta2Store); the       *)
(* headers that result are compared with what was put in and with what the real  *)
(* decoder produced.  One action per operation, eviction and store.              *)
EXTENDS Delta2Store, Delta2Static, HuffTree, TLC, Json, IOUtils
CONSTANT Watch
VARIABLES l, ph, pos, op, left, x, st, par, queue, prev, err, cov,
          body        \* a block that spans several frames, as one frame; <<>>: the frame is whole
vars == <<l, ph, pos, op, left, x, st, par, queue, prev, err, cov, body>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
F == IF body = <<>> THEN Ev.frame ELSE body
End == 8 * Len(F)             \* bits are numbered from 1
SW == {32}                    \* what surrounds a value without being part of it
Sent == NormWith(Ev.hdrs, SW)

NoPrev == [hdrs |-> {}, gid |-> -1, text |-> FALSE, ops |-> FALSE]
\* the frames of one block: all but the last are marked as unfinished, and their payloads belong together
RECURSIVE Payloads(_, _, _)
Payloads(f, p, acc) ==
  IF p + 8 > Len(f) THEN [ok |-> FALSE]
  ELSE LET n == f[p] * 256 + f[p + 1]  q == p + 9 + n IN
       IF q - 1 > Len(f) \/ ~(f[p + 2] = 8 /\ f[p + 3] \in {0, 1} /\ SubSeq(f, p + 4, p + 7) = <<128, 0, 255, 255>>) \/ f[p + 8] # f[9] THEN [ok |-> FALSE]
       ELSE IF f[p + 3] = 1 THEN [ok |-> q = Len(f) + 1, body |-> IF p = 1 THEN <<>> ELSE SubSeq(f, 1, 9) \o acc \o SubSeq(f, p + 9, q - 1)]
       ELSE Payloads(f, q, acc \o SubSeq(f, p + 9, q - 1))

Init == /\ l = 1 /\ ph = "idle" /\ pos = 1 /\ op = 0 /\ left = 0 /\ x = NoOps /\ st = NewStore
        /\ par = [maxb |-> 0, maxe |-> 0, maxi |-> 0, hg |-> FALSE, imp |-> FALSE, ref |-> FALSE, end |-> TRUE,
                  width |-> 0, req |-> TRUE, fmt |-> TRUE]
        /\ queue = <<>> /\ prev = NoPrev /\ err = <<>> /\ body = <<>>
        /\ cov = [new |-> 0, frame |-> 0, stoggl |-> 0, etoggl |-> 0, strang |-> 0, etrang |-> 0, sclone |-> 0,
                  eclone |-> 0, skvsto |-> 0, ekvsto |-> 0, store |-> 0, nostore |-> 0, evict |-> 0, again |-> 0,
                  wrap |-> 0, lost |-> 0, resent |-> 0, silent |-> 0, roundonly |-> 0, skip |-> 0]
Names == <<"stoggl", "etoggl", "strang", "etrang", "sclone", "eclone", "skvsto", "ekvsto">>

Bump(fs) == cov' = [k \in DOMAIN cov |-> IF k \in fs THEN cov[k] + 1 ELSE cov[k]]
Fail(clause) ==
  IF clause \in Watch
  THEN /\ err' = <<clause, l, pos>> /\ ph' = "dead" /\ UNCHANGED <<l, pos, op, left, x, st, par, queue, prev, cov>>
  ELSE /\ ph' = "skip" /\ l' = l + 1 /\ Bump({"skip"})
       /\ UNCHANGED <<pos, op, left, x, st, par, queue, prev, err>>

New == /\ ph \in {"idle", "skip"} /\ l <= N /\ Ev.ev = "new"
       /\ IF Ev.exc # "" THEN Fail("constructor-" \o Ev.exc)
          ELSE /\ st' = NewStore /\ prev' = NoPrev
               /\ par' = [maxb |-> Ev.maxb, maxe |-> Ev.maxe, maxi |-> Ev.maxi, hg |-> Ev.hg, imp |-> Ev.imp,
                          ref |-> Ev.ref, end |-> Ev.end, width |-> Ev.width, req |-> Ev.req, fmt |-> Ev.fmt]
               /\ l' = l + 1 /\ ph' = "idle" /\ Bump({"new"})
               /\ UNCHANGED <<pos, op, left, x, queue, err>>
Skip == /\ ph = "skip" /\ l <= N /\ Ev.ev # "new" /\ l' = l + 1
        /\ UNCHANGED <<ph, pos, op, left, x, st, par, queue, prev, err, cov>>

Begin ==
  /\ ph = "idle" /\ l <= N /\ Ev.ev \in {"frame", "feed"}
  /\ IF Ev.ev = "frame" /\ Ev.exc # "" THEN Fail("compress-" \o Ev.exc)
     ELSE IF Ev.ev = "frame" /\ Ev.dexc # "" THEN Fail("decompress-" \o Ev.dexc)
     ELSE IF Ev.ev = "frame" /\ Ev.mut THEN Fail("input-changed")
     ELSE IF Ev.ev = "frame" /\ NormWith(Ev.dec, SW) # Sent THEN Fail("decoded-differs")
     ELSE IF Ev.ev = "frame" /\ RepeatsWith(Ev.dec, Ev.hdrs, SW) THEN Fail("decoded-differs")
     ELSE IF ~par.fmt THEN /\ l' = l + 1 /\ Bump({"frame", "roundonly"})
                           /\ UNCHANGED <<ph, pos, op, left, x, st, par, queue, prev, err>>
     ELSE IF ~Payloads(Ev.frame, 1, <<>>).ok THEN Fail("frame-header")
     ELSE /\ st' = Enter(st, Ev.frame[9]) /\ pos' = 73 /\ left' = 0 /\ x' = NoOps /\ ph' = "parse"
          /\ UNCHANGED <<l, op, par, queue, prev, err, cov>>
  /\ body' = IF ph' = "parse" THEN Payloads(Ev.frame, 1, <<>>).body ELSE <<>>

\* ---- reading ------------------------------------------------------------
RECURSIVE Bits(_, _)
Bits(p, n) == IF n = 0 THEN 0 ELSE 2 * Bits(p, n - 1) + BitAt(F, p + n - 1)
RECURSIVE Triples(_, _, _)     \* 3-bit groups, least significant first
Triples(p, acc, shift) ==
  IF p + 3 > End \/ shift > 18 THEN Bad
  ELSE LET n == Bits(p, 4)  a == acc + (n % 8) * Pow2(shift) IN
       IF n < 8 THEN [ok |-> TRUE, val |-> a, next |-> p + 4] ELSE Triples(p + 4, a, shift + 3)
Index(p) ==
  IF par.width > 0
  THEN IF p + par.width - 1 > End THEN Bad ELSE [ok |-> TRUE, val |-> Bits(p, par.width), next |-> p + par.width]
  ELSE IF p + 3 > End THEN Bad
  ELSE LET n == Bits(p, 4) IN IF n < 15 THEN [ok |-> TRUE, val |-> n, next |-> p + 4] ELSE Triples(p + 4, 15, 0)
Aligned(p) == ((p + 6) \div 8) * 8 + 1
Str(p) ==
  IF p > End THEN Bad
  ELSE LET r == HuffWalk(IF par.req THEN HuffReq2 ELSE HuffRes2, F,
                         [done |-> FALSE, node |-> 1, p |-> p, val |-> <<>>], End)
       IN IF r.done THEN [ok |-> TRUE, val |-> r.val, next |-> Aligned(r.p)] ELSE Bad

Opcode ==
  /\ ph = "parse" /\ left = 0 /\ End - pos + 1 > 8
  /\ LET b == Bits(pos, 8) IN
     IF b >= 128 THEN Fail("unknown-operation")
     ELSE /\ op' = b \div 16 /\ left' = (b % 16) + 1 /\ pos' = pos + 8
          /\ UNCHANGED <<l, ph, x, st, par, queue, prev, err, cov>>

Did(y, next) == /\ x' = y /\ pos' = next /\ left' = left - 1 /\ Bump({Names[op + 1]})
                /\ UNCHANGED <<l, ph, op, st, par, queue, prev, err>>
Flip(which, S, next) ==
  IF which = "s" THEN Did([x EXCEPT !.stog = XorSet(@, S)], next) ELSE Did([x EXCEPT !.etog = XorSet(@, S)], next)

Toggle ==
  /\ ph = "parse" /\ left > 0 /\ op \in {0, 1}
  /\ LET i == Index(pos) IN
     IF ~i.ok THEN Fail("truncated")
     ELSE LET s == SeqAt(st, i.val, par) IN
          IF s = -1 THEN Fail("index-not-stored")
          ELSE Flip(IF op = 0 THEN "s" ELSE "e", {s}, i.next)
Ranges ==
  /\ ph = "parse" /\ left > 0 /\ op \in {2, 3}
  /\ LET i == Index(pos)
         j == IF i.ok THEN Index(i.next) ELSE Bad
     IN IF ~j.ok THEN Fail("truncated")
        ELSE LET s == SeqAt(st, i.val, par)  t == SeqAt(st, j.val, par) IN
             IF s = -1 \/ t = -1 \/ t > s \/ \E y \in t..s : ~IsStored(st, y) THEN Fail("index-not-stored")
             ELSE Flip(IF op = 2 THEN "s" ELSE "e", t..s, j.next)
Clone ==
  /\ ph = "parse" /\ left > 0 /\ op \in {4, 5}
  /\ LET i == Index(pos)
         v == IF i.ok THEN Str(i.next) ELSE Bad
     IN IF ~v.ok THEN Fail("truncated")
        ELSE LET s == SeqAt(st, i.val, par) IN
             IF s = -1 THEN Fail("index-not-stored")
             ELSE LET e == EntryAt(st, s) IN
                  Did([x EXCEPT !.lits = Append(@, <<e.k, v.val>>),
                                !.later = IF op = 5 THEN @
                                          ELSE Append(@, [s |-> 0, k |-> e.k, v |-> v.val, ki |-> e.ki, vi |-> -1])],
                      v.next)
Text ==
  /\ ph = "parse" /\ left > 0 /\ op \in {6, 7}
  /\ LET k == Str(pos)
         v == IF k.ok THEN Str(k.next) ELSE Bad
     IN IF ~v.ok THEN Fail("truncated")
        ELSE Did([x EXCEPT !.lits = Append(@, <<k.val, v.val>>),
                           !.later = IF op = 7 THEN @
                                     ELSE Append(@, [s |-> 0, k |-> k.val, v |-> v.val, ki |-> -1, vi |-> -1])],
                 v.next)

\* ---- executing ----------------------------------------------------------
HasText == x.lits # <<>>
HasOps == HasText \/ x.stog # {} \/ x.etog # {}
GroupMeans(s) == {<<EntryAt(s, y).k, EntryAt(s, y).v>> : y \in s.groups[s.gid]}
AllStored(H) == \A h \in H : (\E i \in 1..Len(st.ring) : st.ring[i].k = h[1] /\ st.ring[i].v = h[2])
                             \/ \E i \in 1..Offset : Static[i] = h
Same == Ev.ev = "frame" /\ Sent = prev.hdrs /\ F[9] = prev.gid /\ Sent # {}
Cheap == Same /\ AllStored(Sent)
Silent == Cheap /\ GroupMeans(st) = Sent /\ Cardinality(st.groups[st.gid]) = Cardinality(Sent)
Finish ==
  /\ ph = "parse" /\ left = 0 /\ End - pos + 1 <= 8
  /\ LET s1 == Toggled(st, x)
         got == Meaning(s1, x)
         sent == IF Ev.ev = "frame" THEN Sent ELSE got
     IN IF End - pos + 1 = 8 THEN Fail("frame-has-more-bytes")
        ELSE IF Bits(pos, End - pos + 1) # 0 THEN Fail("padding-not-zero")
        ELSE IF got # sent THEN Fail("frame-means-other-headers")
        ELSE IF Ev.dexc # "" THEN Fail("decoder-rejects-legal-frame")
        ELSE IF NormWith(Ev.dec, SW) # sent THEN Fail("decoder-not-per-format")
        ELSE IF Cheap /\ HasText THEN Fail("resend-repeats-text")
        ELSE IF Silent /\ HasOps THEN Fail("resend-not-silent")
        ELSE /\ st' = s1 /\ ph' = "store"
             /\ LET again == Again(s1, par) IN
                queue' = [i \in 1..(Len(x.later) + Len(again)) |->
                            IF i <= Len(x.later) THEN [e |-> x.later[i], again |-> FALSE]
                            ELSE [e |-> again[i - Len(x.later)], again |-> TRUE]]
             /\ prev' = [hdrs |-> sent, gid |-> F[9], text |-> HasText, ops |-> HasOps]
             /\ Bump({"frame"} \cup (IF Cheap THEN {"resent"} ELSE {}) \cup (IF Silent THEN {"silent"} ELSE {}))
             /\ UNCHANGED <<l, pos, op, left, x, par, err>>

\* give the next entry its identity; hg_adjust first takes the old number out of the group
Take ==
  /\ ph = "store" /\ queue # <<>>
  /\ LET q == Head(queue)
         f == Fresh(IF q.again THEN DropFromGroup(st, q.e.s) ELSE st, q.e)
     IN st' = f.st /\ queue' = <<[q EXCEPT !.e = f.e]>> \o Tail(queue) /\ ph' = "place"
  /\ UNCHANGED <<l, pos, op, left, x, par, prev, err, cov>>
Evict ==
  /\ ph = "place" /\ ~Hopeless(st, par) /\ ~Room(st, Head(queue).e, par) /\ st.ring # <<>>
  /\ st' = EvictOne(st) /\ Bump({"evict"} \cup IF st.live /\ ~st'.live THEN {"lost"} ELSE {})
  /\ UNCHANGED <<l, ph, pos, op, left, x, par, queue, prev, err>>
Place ==
  /\ ph = "place" /\ (Hopeless(st, par) \/ Room(st, Head(queue).e, par) \/ st.ring = <<>>)
  /\ LET q == Head(queue)
         ok == ~Hopeless(st, par) /\ Room(st, q.e, par)
         s1 == Insert(st, q.e, par)
     IN /\ st' = IF ~ok THEN st
                 ELSE IF q.again \/ par.imp THEN AddToGroup(s1, st.next) ELSE s1
        /\ Bump((IF ok THEN {"store"} ELSE {"nostore"}) \cup (IF q.again THEN {"again"} ELSE {})
                \cup (IF ok /\ s1.next = Offset THEN {"wrap"} ELSE {}))
  /\ queue' = Tail(queue) /\ ph' = "store"
  /\ UNCHANGED <<l, pos, op, left, x, par, prev, err>>
Leave == /\ ph = "store" /\ queue = <<>> /\ l' = l + 1 /\ ph' = "idle"
         /\ UNCHANGED <<pos, op, left, x, st, par, queue, prev, err, cov>>

Next == Begin \/ /\ \/ New \/ Skip \/ Opcode \/ Toggle \/ Ranges \/ Clone \/ Text \/ Finish
                    \/ Take \/ Evict \/ Place \/ Leave
                 /\ body' = IF l' = l THEN body ELSE <<>>
Spec == Init /\ [][Next]_vars

Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
Limits == ph # "idle" \/ (Len(st.ring) <= par.maxe /\ st.bytes <= par.maxb)
Done == (l > N /\ ph \in {"idle", "skip"}) => PrintT("DONE " \o ToJson(cov))
=============================================================================
