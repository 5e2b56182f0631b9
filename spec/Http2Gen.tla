------------------------------- MODULE Http2Gen -------------------------------
(* Generator of legal frame sequences for the real decoder (run with           *)
(* -simulate): every representation of the format, including the substitution  *)
(* that the encoder never chooses.  Prints the frames of a behaviour.          *)
EXTENDS Http2Table, Http2Static, Wire, TLC, Json
CONSTANTS Cap, Request, Frames, MaxItems
VARIABLES ctx, body, k, frames, done
vars == <<ctx, body, k, frames, done>>

LitNames == { <<97>>, <<120, 45, 97>>, <<97, 99, 99, 101, 112, 116>>, <<58, 112, 97, 116, 104>> }
Vals == { <<>>, <<97>>, <<98, 99>>, [i \in 1..45 |-> 100], [i \in 1..131 |-> 101], [i \in 1..300 |-> 102] }
Dflt == IF Request THEN StaticRequest ELSE StaticResponse

Init == ctx = [tab |-> InitTab(Dflt), out |-> <<>>] /\ body = <<>> /\ k = 0 /\ frames = <<>> /\ done = FALSE

\* how the name is written: <<index byte(s), name>>
NameForms(flags, prefix) ==
  { <<WriteInt(flags, prefix, 0) \o WriteStr(n), n>> : n \in LitNames }
  \cup { <<WriteInt(flags, prefix, j), ctx.tab[j].n>> : j \in 1..Len(ctx.tab) }

Add(bytes, it) == /\ k < MaxItems /\ ~done
                  /\ body' = body \o bytes /\ ctx' = Apply(ctx, it, Cap) /\ k' = k + 1
                  /\ UNCHANGED <<frames, done>>
Pick(S) == RandomElement(S)
\* (bound through \E over a singleton so that one draw is used consistently)
Idx == /\ Len(ctx.tab) > 0
       /\ \E j \in {Pick(0..(Len(ctx.tab)-1))} : Add(WriteInt(128, 7, j), [op |-> "idx", i |-> j])
Lit(op, flags, prefix) ==
  \E nf \in {Pick(NameForms(flags, prefix))} : \E v \in {Pick(Vals)} :
     Add(nf[1] \o WriteStr(v), [op |-> op, n |-> nf[2], v |-> v])
Not == Lit("not", 96, 5)
Inc == Lit("inc", 64, 5)
Sub == /\ Len(ctx.tab) > 0
       /\ \E nf \in {Pick(NameForms(0, 6))} : \E v \in {Pick(Vals)} : \E j \in {Pick(0..(Len(ctx.tab)-1))} :
             Add(nf[1] \o WriteInt(0, 0, j) \o WriteStr(v), [op |-> "sub", n |-> nf[2], v |-> v, i |-> j])
Close == /\ ~done /\ k > 0
         /\ LET f == <<Len(body) \div 256, Len(body) % 256, 0, 0, 0, 0, 0, 0>> \o body IN
            /\ frames' = Append(frames, f)
            /\ done' = (Len(frames) + 1 >= Frames)
            /\ IF Len(frames) + 1 >= Frames THEN PrintT("FEED " \o ToJson(Append(frames, f))) ELSE TRUE
         /\ ctx' = [BeginFrame(EndFrame(ctx)) EXCEPT !.out = <<>>]
         /\ body' = <<>> /\ k' = 0
Next == Idx \/ Not \/ Inc \/ Sub \/ Sub \/ Close
Spec == Init /\ [][Next]_vars
Bounded == TabSize(ctx.tab) <= Max2(Cap, TabSize(InitTab(Dflt)))
=============================================================================
