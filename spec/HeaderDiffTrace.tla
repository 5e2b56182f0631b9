--------------------------- MODULE HeaderDiffTrace ---------------------------
(* Conformance of the real HeaderDiff codec: every recorded frame is parsed    *)
(* byte by byte into items, each item is applied to the specification's own    *)
(* context (HeaderDiffTable), and the resulting headers are compared with what *)
(* was put in and with what the real decoder produced.                         *)
(* Ev.fmt = FALSE (deflated frames): only the round trip is compared.          *)
EXTENDS HeaderDiffTable, HeaderDiffStatic, HuffTree, TLC, Json, IOUtils
CONSTANT Watch
VARIABLES l, ph, pos, left, ctx, par, err, cov, prev
vars == <<l, ph, pos, left, ctx, par, err, cov, prev>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
F == Ev.frame
End == Len(F)

Init == /\ l = 1 /\ ph = "idle" /\ pos = 1 /\ left = 0 /\ prev = [same |-> FALSE, hdrs |-> <<>>, idx |-> TRUE]
        /\ ctx = ContextOf(<<>>) /\ par = [cap |-> 0, huff |-> FALSE, req |-> TRUE, fmt |-> TRUE]
        /\ err = <<>>
        /\ cov = [new |-> 0, frame |-> 0, short |-> 0, long |-> 0, lit |-> 0, delta |-> 0, no |-> 0,
                  inc |-> 0, sub |-> 0, newname |-> 0, roundonly |-> 0, resent |-> 0, skip |-> 0]

Bump(fs) == cov' = [k \in DOMAIN cov |-> IF k \in fs THEN cov[k] + 1 ELSE cov[k]]
Fail(clause) ==
  IF clause \in Watch
  THEN /\ err' = <<clause, l, pos>> /\ ph' = "dead" /\ UNCHANGED <<l, pos, left, ctx, par, cov, prev>>
  ELSE /\ ph' = "skip" /\ l' = l + 1 /\ Bump({"skip"}) /\ UNCHANGED <<pos, left, ctx, par, err, prev>>

New == /\ ph \in {"idle", "skip"} /\ l <= N /\ Ev.ev = "new"
       /\ IF Ev.exc # "" THEN Fail("constructor-" \o Ev.exc)
          ELSE /\ ctx' = ContextOf(IF Ev.req THEN NamesRequest ELSE NamesResponse)
               /\ par' = [cap |-> Ev.cap, huff |-> Ev.huff, req |-> Ev.req, fmt |-> Ev.fmt]
               /\ prev' = [same |-> FALSE, hdrs |-> <<>>, idx |-> TRUE]
               /\ l' = l + 1 /\ ph' = "idle" /\ Bump({"new"})
               /\ UNCHANGED <<pos, left, err>>
Skip == /\ ph = "skip" /\ l <= N /\ Ev.ev # "new" /\ l' = l + 1
        /\ UNCHANGED <<ph, pos, left, ctx, par, err, cov, prev>>

InTab(h) == \E k \in 1..Len(ctx.tab) : ctx.tab[k].n = h[1] /\ ctx.tab[k].v = h[2]

Begin ==
  /\ ph = "idle" /\ l <= N /\ Ev.ev \in {"frame", "feed"}
  /\ IF Ev.ev = "frame" /\ Ev.exc # "" THEN Fail("compress-" \o Ev.exc)
     ELSE IF Ev.ev = "frame" /\ Ev.dexc # "" THEN Fail("decompress-" \o Ev.dexc)
     ELSE IF Ev.ev = "frame" /\ Ev.mut THEN Fail("input-changed")
     ELSE IF Ev.ev = "frame" /\ Norm(Ev.dec) # Norm(Ev.hdrs) THEN Fail("decoded-differs")
     ELSE IF Ev.ev = "frame" /\ Repeats(Ev.dec, Ev.hdrs) THEN Fail("decoded-differs")
     ELSE IF End < 9 THEN Fail("frame-header")
     ELSE IF F[1] * 256 + F[2] # End - 8 \/ SubSeq(F, 3, 8) # <<0,0,0,0,0,0>> THEN Fail("frame-header")
     ELSE IF ~par.fmt THEN /\ l' = l + 1 /\ Bump({"frame", "roundonly"})
                           /\ UNCHANGED <<ph, pos, left, ctx, par, err, prev>>
     ELSE /\ ctx' = BeginFrame(ctx) /\ pos' = 10 /\ left' = F[9] /\ ph' = "parse"
          /\ prev' = [same |-> Ev.ev = "frame" /\ Ev.hdrs = prev.hdrs /\ Ev.hdrs # <<>>
                               /\ \A h \in Norm(Ev.hdrs) : InTab(h),
                      hdrs |-> IF Ev.ev = "frame" THEN Ev.hdrs ELSE <<>>, idx |-> TRUE]
          /\ UNCHANGED <<l, par, err, cov>>

Str(p) == IF par.huff THEN ReadHuff(IF par.req THEN HuffRequest ELSE HuffResponse, F, p, End)
          ELSE ReadStr(F, p, End)

Item(it, next, tags) ==
  IF ~ValidItem(ctx, it) THEN Fail("index-out-of-table")
  ELSE LET c == Apply(ctx, it) IN
       IF c.size > par.cap THEN Fail("table-exceeds-buffer")
       ELSE /\ ctx' = c /\ pos' = next /\ left' = left - 1
            /\ prev' = [prev EXCEPT !.idx = @ /\ it.op = "idx"]
            /\ Bump(tags) /\ UNCHANGED <<l, ph, par, err>>

Indexed ==
  /\ ph = "parse" /\ left > 0 /\ pos <= End /\ F[pos] >= 128
  /\ IF F[pos] < 192 THEN Item([op |-> "idx", i |-> F[pos] - 128], pos + 1, {"short"})
     ELSE IF pos + 1 > End THEN Fail("truncated")
     ELSE LET low == (F[pos] % 64) * 256 + F[pos+1]
              n == IF low < 16383 THEN [ok |-> TRUE, val |-> low, next |-> pos + 2]
                   ELSE ReadTail(F, pos + 2, End, 16383, 0)
          IN IF ~n.ok THEN Fail("truncated")
             ELSE Item([op |-> "idx", i |-> n.val + 64], n.next, {"long"})

IxOf(b) == CASE (b \div 16) % 4 = 2 -> "inc" [] (b \div 16) % 4 = 3 -> "sub" [] OTHER -> "no"

Delta ==
  /\ ph = "parse" /\ left > 0 /\ pos <= End /\ F[pos] >= 64 /\ F[pos] < 128
  /\ LET ix == IxOf(F[pos])
         r == ReadInt(F, pos + 1, End, F[pos], IF ix = "no" THEN 5 ELSE 4)
         k == IF r.ok THEN ReadInt(F, r.next, End, 0, 0) ELSE Bad
         s == IF k.ok THEN Str(k.next) ELSE Bad
     IN IF ~s.ok THEN Fail("truncated")
        ELSE Item([op |-> "delta", ix |-> ix, i |-> r.val, k |-> k.val, s |-> s.val], s.next, {"delta", ix})

Literal ==
  /\ ph = "parse" /\ left > 0 /\ pos <= End /\ F[pos] < 64
  /\ LET ix == IxOf(F[pos])
         r == ReadInt(F, pos + 1, End, F[pos], IF ix = "no" THEN 5 ELSE 4)
     IN IF ~r.ok THEN Fail("truncated")
        ELSE IF r.val > Len(ctx.names) THEN Fail("index-out-of-table")
        ELSE
        LET n == IF r.val = 0 THEN Str(r.next) ELSE [ok |-> TRUE, val |-> ctx.names[r.val], next |-> r.next]
            i == IF ~n.ok THEN Bad ELSE IF ix = "sub" THEN ReadInt(F, n.next, End, 0, 0)
                 ELSE [ok |-> TRUE, val |-> 0, next |-> n.next]
            s == IF i.ok THEN Str(i.next) ELSE Bad
        IN IF ~s.ok THEN Fail("truncated")
           ELSE Item([op |-> "lit", ix |-> ix, n |-> n.val, new |-> r.val = 0, i |-> i.val, s |-> s.val],
                     s.next, {"lit", ix} \cup IF r.val = 0 THEN {"newname"} ELSE {})

Short == ph = "parse" /\ left > 0 /\ pos > End /\ Fail("truncated")

Finish ==
  /\ ph = "parse" /\ left = 0
  /\ LET got == ToSet(ctx.out)
         sent == IF Ev.ev = "frame" THEN Norm(Ev.hdrs) ELSE got
     IN IF pos <= End THEN Fail("frame-has-more-bytes")
        ELSE IF got # sent THEN Fail("frame-means-other-headers")
        ELSE IF Ev.dexc # "" THEN Fail("decoder-rejects-legal-frame")
        ELSE IF Norm(Ev.dec) # sent THEN Fail("decoder-not-per-format")
        ELSE IF Ev.ev = "feed" /\ Repeats(Ev.dec, ctx.out) THEN Fail("decoder-not-per-format")
        ELSE IF prev.same /\ ~prev.idx THEN Fail("resend-not-references")
        ELSE /\ l' = l + 1 /\ ph' = "idle"
             /\ Bump({"frame"} \cup IF prev.same THEN {"resent"} ELSE {})
             /\ UNCHANGED <<pos, left, ctx, par, err, prev>>

Next == New \/ Skip \/ Begin \/ Indexed \/ Delta \/ Literal \/ Short \/ Finish
Spec == Init /\ [][Next]_vars

Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
Done == (l > N /\ ph \in {"idle", "skip"}) => PrintT("DONE " \o ToJson(cov))
=============================================================================
