------------------------------ MODULE Http2Trace ------------------------------
(* Conformance of the real HTTP/2 (HPACK draft) codec: every frame recorded    *)
(* from the implementation is parsed byte by byte into items, each item is     *)
(* applied to the specification's own context (Http2Table), and the resulting  *)
(* header set is compared with what was put in and with what the real decoder  *)
(* produced.                                                                   *)
EXTENDS Http2Table, Http2Static, Wire, TLC, Json, IOUtils
CONSTANT Watch           \* the clauses this run reports on
VARIABLES l, ph, pos, ctx, cap, err, cov,
          re      \* the headers of the frame before, and what this frame may not cost
vars == <<l, ph, pos, ctx, cap, err, cov, re>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
F == Ev.frame
End == Len(F)

NoRe == [sent |-> {}, cheap |-> FALSE, silent |-> FALSE]
Init == /\ l = 1 /\ ph = "idle" /\ pos = 1 /\ cap = 0
        /\ ctx = [tab |-> <<>>, out |-> <<>>]
        /\ err = <<>> /\ re = NoRe
        /\ cov = [new |-> 0, frame |-> 0, on |-> 0, off |-> 0, not |-> 0, inc |-> 0,
                  sub |-> 0, evict |-> 0, big |-> 0, resent |-> 0, silent |-> 0, skip |-> 0]

Bump(fs) == cov' = [k \in DOMAIN cov |-> IF k \in fs THEN cov[k] + 1 ELSE cov[k]]

\* A deviation.  If this run watches for it, record it and stop; otherwise
\* give up on the rest of this history.
Fail(clause) ==
  IF clause \in Watch
  THEN /\ err' = <<clause, l, pos>> /\ ph' = "dead" /\ UNCHANGED <<l, pos, ctx, cap, cov, re>>
  ELSE /\ ph' = "skip" /\ l' = l + 1 /\ Bump({"skip"}) /\ UNCHANGED <<pos, ctx, cap, err, re>>

NewBad == /\ ph \in {"idle", "skip"} /\ l <= N /\ Ev.ev = "new" /\ Ev.exc # ""
          /\ Fail("constructor-" \o Ev.exc)
New == /\ ph \in {"idle", "skip"} /\ l <= N /\ Ev.ev = "new" /\ Ev.exc = ""
       /\ ctx' = [tab |-> InitTab(IF Ev.req THEN StaticRequest ELSE StaticResponse), out |-> <<>>]
       /\ cap' = Ev.cap /\ l' = l + 1 /\ ph' = "idle" /\ Bump({"new"}) /\ re' = NoRe
       /\ UNCHANGED <<pos, err>>
Skip == /\ ph = "skip" /\ l <= N /\ Ev.ev # "new" /\ l' = l + 1
        /\ UNCHANGED <<ph, pos, ctx, cap, err, cov, re>>

\* The same headers again: what is still in the table is not spelled out, and
\* if the reference set is just these headers nothing needs to be said at all.
Stored(h) == \E k \in 1..Len(ctx.tab) : ctx.tab[k].n = h[1] /\ ctx.tab[k].v = h[2]
Distinct == Cardinality(Norm(Ev.hdrs)) = SumOver(Ev.hdrs, LAMBDA h : Len(SplitAt(h[2], IF h[1] = Cookie THEN 59 ELSE 0)))
Resend == Ev.ev = "frame" /\ re.sent # {} /\ Norm(Ev.hdrs) = re.sent /\ Distinct /\ \A h \in re.sent : Stored(h)
Begin ==
  /\ ph = "idle" /\ l <= N /\ Ev.ev \in {"frame", "feed"}
  /\ IF Ev.ev = "frame" /\ Ev.exc # "" THEN Fail("compress-" \o Ev.exc)
     ELSE IF Ev.ev = "frame" /\ Ev.dexc # "" THEN Fail("decompress-" \o Ev.dexc)
     ELSE IF Ev.ev = "frame" /\ Ev.mut THEN Fail("input-changed")
     ELSE IF Ev.ev = "frame" /\ Norm(Ev.dec) # Norm(Ev.hdrs) THEN Fail("decoded-differs")
     ELSE IF Ev.ev = "frame" /\ Repeats(Ev.dec, Ev.hdrs) THEN Fail("decoded-differs")
     ELSE IF End < 8 THEN Fail("frame-header")
     ELSE IF F[1] * 256 + F[2] # End - 8 \/ SubSeq(F, 3, 8) # <<0,0,0,0,0,0>> THEN Fail("frame-header")
     ELSE /\ ctx' = BeginFrame(ctx) /\ pos' = 9 /\ ph' = "parse"
          /\ re' = [sent |-> IF Ev.ev = "frame" THEN Norm(Ev.hdrs) ELSE {}, cheap |-> Resend,
                    silent |-> Resend /\ RefSet(ctx) = re.sent]
          /\ UNCHANGED <<l, cap, err, cov>>

Item(it, next) ==
  IF ~ValidItem(ctx, it) THEN Fail("index-out-of-table")
  ELSE IF re.cheap /\ it.op # "idx" THEN Fail("resend-repeats-text")
  ELSE IF re.silent THEN Fail("resend-not-silent")
  ELSE /\ ctx' = Apply(ctx, it, cap) /\ pos' = next
       /\ Bump({IF it.op = "idx" THEN (IF ctx.tab[it.i+1].ref THEN "off" ELSE "on") ELSE it.op}
               \cup (IF it.op \in {"inc", "sub"} /\ Len(ctx'.tab) <= Len(ctx.tab) THEN {"evict"} ELSE {})
               \cup (IF it.op = "inc" /\ Len(it.n) + Len(it.v) + Overhead > cap THEN {"big"} ELSE {}))
       /\ UNCHANGED <<l, ph, cap, err, re>>

Toggling == 
  /\ ph = "parse" /\ pos <= End /\ F[pos] >= 128
  /\ LET n == ReadInt(F, pos + 1, End, F[pos], 7) IN
     IF ~n.ok THEN Fail("truncated") ELSE Item([op |-> "idx", i |-> n.val], n.next)

Literal ==
  /\ ph = "parse" /\ pos <= End /\ F[pos] < 128
  /\ LET b == F[pos]
         op == IF b < 64 THEN "sub" ELSE IF b < 96 THEN "inc" ELSE "not"
         ni == ReadInt(F, pos + 1, End, b, IF op = "sub" THEN 6 ELSE 5)
     IN IF ~ni.ok THEN Fail("truncated")
        ELSE IF ni.val > Len(ctx.tab) THEN Fail("index-out-of-table")
        ELSE
        LET nm == IF ni.val = 0 THEN ReadStr(F, ni.next, End)
                  ELSE [ok |-> TRUE, val |-> ctx.tab[ni.val].n, next |-> ni.next]
            ix == IF ~nm.ok THEN Bad ELSE IF op = "sub" THEN ReadInt(F, nm.next, End, 0, 0)
                  ELSE [ok |-> TRUE, val |-> 0, next |-> nm.next]
            vl == IF ~ix.ok THEN Bad ELSE ReadStr(F, ix.next, End)
        IN IF ~vl.ok THEN Fail("truncated")
           ELSE IF op = "sub" THEN Item([op |-> op, n |-> nm.val, v |-> vl.val, i |-> ix.val], vl.next)
           ELSE Item([op |-> op, n |-> nm.val, v |-> vl.val], vl.next)

Finish ==
  /\ ph = "parse" /\ pos > End
  /\ LET c == EndFrame(ctx)
         got == ToSet(c.out)
         sent == IF Ev.ev = "frame" THEN Norm(Ev.hdrs) ELSE got
     IN IF got # sent THEN Fail("frame-means-other-headers")
        ELSE IF Ev.dexc # "" THEN Fail("decoder-rejects-legal-frame")
        ELSE IF Norm(Ev.dec) # sent THEN Fail("decoder-not-per-format")
        ELSE IF Ev.ev = "feed" /\ Repeats(Ev.dec, c.out) THEN Fail("decoder-not-per-format")
        ELSE /\ ctx' = c /\ l' = l + 1 /\ ph' = "idle" /\ Bump({"frame"} \cup (IF re.cheap THEN {"resent"} ELSE {}) \cup (IF re.silent THEN {"silent"} ELSE {}))
             /\ UNCHANGED <<pos, cap, err, re>>

Next == New \/ NewBad \/ Skip \/ Begin \/ Toggling \/ Literal \/ Finish
Spec == Init /\ [][Next]_vars

Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
InBound == ph # "parse" \/ cap = 0 \/ TabSize(ctx.tab) <= Max2(cap, 4096)
Done == (l > N /\ ph \in {"idle", "skip"}) => PrintT("DONE " \o ToJson(cov))
=============================================================================
