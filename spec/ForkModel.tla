------------------------------ MODULE ForkModel ------------------------------
(* The fork codec and the external process, joined by two pipes of limited      *)
(* size.  Requests are texts that end with an empty line.  A reply is either a  *)
(* text that ends with an empty line (mode "text") or HdrLen bytes of length    *)
(* followed by that many bytes (mode "bin").  Both ends take and give any       *)
(* number of bytes at a time.                                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Bytes, MaxReply, Messages, Cap, HdrLen, Modes, Emit
VARIABLES mode, replies, i, need, got, results, down, up, xi, xgot, xleft, xlog
vars == <<mode, replies, i, need, got, results, down, up, xi, xgot, xleft, xlog>>
NL == 10
\* texts without an empty line in which every line is ended
\* (a line of the alphabet is blank when it has nothing but NL)
TextOk(t) == t = <<>> \/ (t[1] # NL /\ t[Len(t)] = NL /\ \A k \in 1..(Len(t) - 1) : ~(t[k] = NL /\ t[k + 1] = NL))
All == UNION {[1..n -> Bytes] : n \in 0..MaxReply}
Replies(m) == IF m = "bin" THEN All ELSE {t \in All : TextOk(t)}
Request(k) == <<k, NL, NL>>
EndOfText(t) == IF Len(t) < 2 THEN t = <<NL>> ELSE t[Len(t)] = NL /\ t[Len(t) - 1] = NL
Number(n) == [k \in 1..HdrLen |-> IF k = 1 THEN n ELSE 0]        \* little endian, as on the machines it runs on
Wire(m, r) == IF m = "bin" THEN Number(Len(r)) \o r ELSE r \o <<NL>>

Init == /\ mode \in Modes /\ replies \in [1..Messages -> Replies(mode)]
        /\ i = 1 /\ need = Request(1) /\ got = <<>> /\ results = <<>>
        /\ down = <<>> /\ up = <<>> /\ xi = 1 /\ xgot = <<>> /\ xleft = <<>> /\ xlog = <<>>
Least(a, b) == IF a < b THEN a ELSE b
\* the codec: writes the whole request, then reads up to the end of the reply and never beyond
Send == /\ need # <<>> /\ Len(down) < Cap
        /\ \E n \in 1..Least(Len(need), Cap - Len(down)) :
             down' = down \o SubSeq(need, 1, n) /\ need' = SubSeq(need, n + 1, Len(need))
        /\ UNCHANGED <<mode, replies, i, got, results, up, xi, xgot, xleft, xlog>>
Complete(g) == IF mode = "bin" THEN Len(g) >= HdrLen /\ Len(g) = HdrLen + g[1] ELSE EndOfText(g)
Payload(g) == IF mode = "bin" THEN SubSeq(g, HdrLen + 1, Len(g)) ELSE SubSeq(g, 1, Len(g) - 1)
Recv == /\ need = <<>> /\ i <= Messages /\ ~Complete(got) /\ up # <<>>
        /\ got' = Append(got, Head(up)) /\ up' = Tail(up)
        /\ UNCHANGED <<mode, replies, i, need, results, down, xi, xgot, xleft, xlog>>
Return == /\ need = <<>> /\ i <= Messages /\ Complete(got)
          /\ results' = Append(results, Payload(got)) /\ got' = <<>> /\ i' = i + 1
          /\ need' = IF i < Messages THEN Request(i + 1) ELSE <<>>
          /\ UNCHANGED <<mode, replies, down, up, xi, xgot, xleft, xlog>>
\* the external process
XRead == /\ xleft = <<>> /\ down # <<>>
         /\ LET g == Append(xgot, Head(down))
                whole == Len(g) > 1 /\ EndOfText(g)
            IN IF whole THEN /\ xlog' = Append(xlog, g) /\ xgot' = <<>> /\ xleft' = Wire(mode, replies[xi]) /\ xi' = xi + 1
               ELSE xgot' = g /\ UNCHANGED <<xlog, xleft, xi>>
         /\ down' = Tail(down)
         /\ UNCHANGED <<mode, replies, i, need, got, results, up>>
XWrite == /\ xleft # <<>> /\ Len(up) < Cap
          /\ \E n \in 1..Least(Len(xleft), Cap - Len(up)) :
               up' = up \o SubSeq(xleft, 1, n) /\ xleft' = SubSeq(xleft, n + 1, Len(xleft))
          /\ UNCHANGED <<mode, replies, i, need, got, results, down, xi, xgot, xlog>>
Finished == i > Messages /\ UNCHANGED vars
Next == Send \/ Recv \/ Return \/ XRead \/ XWrite \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Send \/ Recv \/ Return \/ XRead \/ XWrite)

InStep == results = SubSeq(replies, 1, Len(results))
Requests == xlog = [k \in 1..Len(xlog) |-> Request(k)] /\ Len(xlog) >= Len(results)
NothingLeft == (need # <<>> /\ got = <<>> /\ Len(need) = Len(Request(i))) => up = <<>>   \* no reply is left over
Ends == <>(i > Messages)
Hist == (Emit /\ i > Messages) => PrintT("HIST " \o ToJson([mode |-> mode, replies |-> replies]))
=============================================================================
