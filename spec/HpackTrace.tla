------------------------------- MODULE HpackTrace -------------------------------
(* Conformance of the real RFC 7541 codec: every recorded block is read byte by   *)
(* byte into items, Huffman codes included, each item is applied to the           *)
(* specification's own context, and the resulting fields are compared with what   *)
(* was put in and with what the real decoder produced.                            *)
EXTENDS Hpack, Wire, TLC, Json, IOUtils
CONSTANT Watch           \* the clauses this run reports on
VARIABLES l, ph, pos, ctx, err, cov,
          want    \* the dynamic table if every field spelled out had been added to it
vars == <<l, ph, pos, ctx, err, cov, want>>
Cap == 4096
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
F == Ev.frame
End == Len(F)

Init == /\ l = 1 /\ ph = "idle" /\ pos = 1 /\ ctx = Fresh(Cap) /\ want = Fresh(Cap) /\ err = <<>>
        /\ cov = [new |-> 0, frame |-> 0, feed |-> 0, idx |-> 0, static |-> 0, inc |-> 0, not |-> 0, never |-> 0,
                  size |-> 0, evict |-> 0, big |-> 0, huff |-> 0, raw |-> 0, all |-> 0, skip |-> 0]
Bump(fs) == cov' = [k \in DOMAIN cov |-> IF k \in fs THEN cov[k] + 1 ELSE cov[k]]
Fail(clause) ==
  IF clause \in Watch
  THEN /\ err' = <<clause, l, pos>> /\ ph' = "dead" /\ UNCHANGED <<l, pos, ctx, cov, want>>
  ELSE /\ ph' = "skip" /\ l' = l + 1 /\ Bump({"skip"}) /\ UNCHANGED <<pos, ctx, err, want>>

(* ---- string literals ---- *)
Huff(f, from, n) ==        \* n bytes of the code, padded with the first bits of EOS
  FoldLeft(LAMBDA st, p :
             IF st.bad THEN st
             ELSE LET b == (f[((p - 1) \div 8) + 1] \div Pow2(7 - ((p - 1) % 8))) % 2
                      c == HpackTree[st.node][b + 1] IN
                  IF c > 0 THEN [st EXCEPT !.node = c, !.since = @ + 1, !.ones = @ /\ b = 1]
                  ELSE [node |-> 1, since |-> 0, ones |-> TRUE, bad |-> c = -257,
                        val |-> IF c = -257 THEN st.val ELSE Append(st.val, -c - 1)],
           [node |-> 1, since |-> 0, ones |-> TRUE, bad |-> FALSE, val |-> <<>>],
           [k \in 1..(8 * n) |-> 8 * (from - 1) + k])
ReadText(f, pos1, end) ==
  IF pos1 > end THEN Bad
  ELSE CHOOSE r \in { LET n == ReadInt(f, pos1 + 1, end, f[pos1], 7) IN
                      IF ~n.ok \/ n.next + n.val - 1 > end THEN Bad
                      ELSE IF f[pos1] < 128 THEN [ok |-> TRUE, val |-> SubSeq(f, n.next, n.next + n.val - 1), next |-> n.next + n.val]
                      ELSE CHOOSE q \in { IF h.bad \/ h.since > 7 \/ ~h.ones THEN Bad
                                          ELSE [ok |-> TRUE, val |-> h.val, next |-> n.next + n.val] :
                                            h \in {Huff(f, n.next, n.val)} } : TRUE } : TRUE

(* ---- events ---- *)
NewBad == /\ ph \in {"idle", "skip"} /\ l <= N /\ Ev.ev = "new" /\ Ev.exc # "" /\ Fail("constructor-" \o Ev.exc)
New == /\ ph \in {"idle", "skip"} /\ l <= N /\ Ev.ev = "new" /\ Ev.exc = ""
       /\ ctx' = Fresh(Cap) /\ want' = Fresh(Cap) /\ l' = l + 1 /\ ph' = "idle" /\ Bump({"new"}) /\ UNCHANGED <<pos, err>>
Skip == /\ ph = "skip" /\ l <= N /\ Ev.ev # "new" /\ l' = l + 1 /\ UNCHANGED <<ph, pos, ctx, err, cov, want>>

Begin == /\ ph = "idle" /\ l <= N /\ Ev.ev \in {"frame", "feed"}
         /\ IF Ev.ev = "frame" /\ Ev.exc # "" THEN Fail("compress-" \o Ev.exc)
            ELSE IF Ev.ev = "frame" /\ Ev.dexc # "" THEN Fail("decompress-" \o Ev.dexc)
            ELSE IF Ev.ev = "frame" /\ Ev.mut THEN Fail("input-changed")
            ELSE IF Ev.ev = "frame" /\ ToSet(Ev.dec) # ToSet(Ev.hdrs) THEN Fail("decoded-differs")
            ELSE ctx' = NewBlock(ctx) /\ pos' = 1 /\ ph' = "parse" /\ UNCHANGED <<l, err, cov, want>>

Take(it, next, how) ==
  IF ~Legal(ctx, it, Cap) THEN Fail(IF it.op = "size" THEN "size-update" ELSE "index-out-of-table")
  ELSE IF Ev.ev = "frame" /\ it.op \notin {"idx", "size"} /\ InTable(ctx, <<it.n, it.v>>) THEN Fail("stored-field-spelled-out")
  ELSE IF Ev.ev = "frame" /\ it.op \notin {"idx", "size"} /\ InTable(want, <<it.n, it.v>>) THEN Fail("recent-field-spelled-out")
  ELSE \E c2 \in {ApplyItem(ctx, it)} :
       /\ ctx' = c2 /\ pos' = next
       /\ Bump({it.op} \cup how
               \cup (IF it.op = "idx" /\ it.i <= NStatic THEN {"static"} ELSE {})
               \cup (IF it.op = "inc" /\ Len(c2.tab) <= Len(ctx.tab) THEN {"evict"} ELSE {})
               \cup (IF it.op = "inc" /\ c2.tab = <<>> THEN {"big"} ELSE {}))
       /\ want' = IF it.op \in {"idx", "size"} THEN want ELSE [want EXCEPT !.tab = AddField(@, <<it.n, it.v>>, Cap)]
       /\ UNCHANGED <<l, ph, err>>
Indexed ==
  /\ ph = "parse" /\ pos <= End /\ F[pos] >= 128
  /\ \E n \in {ReadInt(F, pos + 1, End, F[pos], 7)} :
       IF ~n.ok THEN Fail("truncated") ELSE Take([op |-> "idx", i |-> n.val], n.next, {})
Size ==
  /\ ph = "parse" /\ pos <= End /\ F[pos] \in 32..63
  /\ \E n \in {ReadInt(F, pos + 1, End, F[pos], 5)} :
       IF ~n.ok THEN Fail("truncated") ELSE Take([op |-> "size", i |-> n.val], n.next, {})
Literal ==
  /\ ph = "parse" /\ pos <= End /\ F[pos] < 128 /\ F[pos] \notin 32..63
  /\ \E op \in {IF F[pos] >= 64 THEN "inc" ELSE IF F[pos] >= 16 THEN "never" ELSE "not"} :
     \E ni \in {ReadInt(F, pos + 1, End, F[pos], IF op = "inc" THEN 6 ELSE 4)} :
       IF ~ni.ok THEN Fail("truncated")
       ELSE IF ni.val # 0 /\ ~KnownIndex(ctx, ni.val) THEN Fail("index-out-of-table")
       ELSE \E nm \in {IF ni.val = 0 THEN ReadText(F, ni.next, End)
                       ELSE [ok |-> TRUE, val |-> FieldAt(ctx, ni.val)[1], next |-> ni.next]} :
            \E vl \in {IF ~nm.ok THEN Bad ELSE ReadText(F, nm.next, End)} :
              IF ~vl.ok THEN Fail("bad-text")
              ELSE Take([op |-> op, n |-> nm.val, v |-> vl.val], vl.next, IF F[nm.next] >= 128 THEN {"huff"} ELSE {"raw"})
Finish ==
  /\ ph = "parse" /\ pos > End
  /\ LET sent == IF Ev.ev = "frame" THEN ToSet(Ev.hdrs) ELSE ToSet(ctx.out) IN
     IF ToSet(ctx.out) # sent \/ Len(ctx.out) # Cardinality(sent) THEN Fail("frame-means-other-headers")
     ELSE IF Ev.dexc # "" THEN Fail("decoder-rejects-legal-frame")
     ELSE IF ToSet(Ev.dec) # sent THEN Fail("decoder-not-per-format")
     ELSE /\ l' = l + 1 /\ ph' = "idle" /\ Bump({Ev.ev} \cup (IF End > 0 /\ End <= 2 * Len(ctx.out) THEN {"all"} ELSE {}))
          /\ UNCHANGED <<pos, ctx, err, want>>

Next == New \/ NewBad \/ Skip \/ Begin \/ Indexed \/ Size \/ Literal \/ Finish
Spec == Init /\ [][Next]_vars
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
InBound == ph # "parse" \/ TabBytes(ctx.tab) <= Cap
Done == (l > N /\ ph \in {"idle", "skip"}) => PrintT("DONE " \o ToJson(cov))
=============================================================================
