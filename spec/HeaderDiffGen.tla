---------------------------- MODULE HeaderDiffGen ----------------------------
(* Generator of legal HeaderDiff frames for the real decoder (-simulate):      *)
(* every representation, also where the encoder would choose another one.      *)
EXTENDS HeaderDiffTable, HeaderDiffStatic, HuffTree, TLC, Json
CONSTANTS Cap, Request, Huff, Frames, MaxItems
VARIABLES ctx, body, k, frames, done
vars == <<ctx, body, k, frames, done>>

LitNames == { <<97>>, <<120, 45, 97>>, <<97, 99, 99, 101, 112, 116>>, <<58, 112, 97, 116, 104>> }
Vals == { <<>>, <<97>>, <<98, 99>>, <<47, 97, 47, 98>>, [i \in 1..45 |-> 100 + (i % 3)], [i \in 1..131 |-> 101], [i \in 1..300 |-> 102] }
Str(s) == IF Huff THEN WriteHuff(IF Request THEN HuffRequest ELSE HuffResponse, s) ELSE WriteStr(s)

Init == /\ ctx = ContextOf(IF Request THEN NamesRequest ELSE NamesResponse)
        /\ body = <<>> /\ k = 0 /\ frames = <<>> /\ done = FALSE
Pick(S) == RandomElement(S)
Add(bytes, it) == /\ k < MaxItems /\ ~done
                  /\ Apply(ctx, it).size <= Cap
                  /\ body' = body \o bytes /\ ctx' = Apply(ctx, it) /\ k' = k + 1
                  /\ UNCHANGED <<frames, done>>
Flag(ix) == CASE ix = "no" -> 0 [] ix = "inc" -> 32 [] ix = "sub" -> 48
Bits(ix) == IF ix = "no" THEN 5 ELSE 4
Idx == /\ Len(ctx.tab) > 0
       /\ \E j \in {Pick(0..(Len(ctx.tab)-1))} :
            Add(IF j < 64 THEN <<128 + j>> ELSE <<192 + (j - 64) \div 256, (j - 64) % 256>>, [op |-> "idx", i |-> j])
Lit == \E ix \in {Pick(IF Len(ctx.tab) > 0 THEN {"no", "inc", "sub"} ELSE {"no", "inc"})} :
       \E lit \in {Pick({TRUE, FALSE})} : \E v \in {Pick(Vals)} :
       \E n \in {IF lit THEN Pick(LitNames) ELSE ctx.names[Pick(1..Len(ctx.names))]} :
       \E j \in {IF ix = "sub" THEN Pick(0..(Len(ctx.tab)-1)) ELSE 0} :
         LET ref == CHOOSE x \in 1..Len(ctx.names) : ctx.names[x] = n
         IN Add((IF lit THEN WriteInt(Flag(ix), Bits(ix), 0) \o Str(n) ELSE WriteInt(Flag(ix), Bits(ix), ref))
                \o (IF ix = "sub" THEN WriteInt(0, 0, j) ELSE <<>>) \o Str(v),
                [op |-> "lit", ix |-> ix, n |-> n, new |-> lit, i |-> j, s |-> v])
Dlt == /\ Len(ctx.tab) > 0
       /\ \E ix \in {Pick({"no", "inc", "sub"})} : \E j \in {Pick(0..(Len(ctx.tab)-1))} : \E v \in {Pick(Vals)} :
          \E m \in {Pick(0..Len(ctx.tab[j+1].v))} :
            Add(WriteInt(64 + Flag(ix), Bits(ix), j) \o WriteInt(0, 0, m) \o Str(v),
                [op |-> "delta", ix |-> ix, i |-> j, k |-> m, s |-> v])
Close == /\ ~done /\ k > 0
         /\ LET n == Len(body) + 1
                f == <<n \div 256, n % 256, 0, 0, 0, 0, 0, 0, k>> \o body IN
            /\ frames' = Append(frames, f)
            /\ done' = (Len(frames) + 1 >= Frames)
            /\ IF Len(frames) + 1 >= Frames THEN PrintT("FEED " \o ToJson(Append(frames, f))) ELSE TRUE
         /\ ctx' = BeginFrame(ctx) /\ body' = <<>> /\ k' = 0
Next == Idx \/ Lit \/ Lit \/ Dlt \/ (k >= MaxItems /\ Close) \/ (k > 3 /\ Close)
Spec == Init /\ [][Next]_vars
Bounded == TabSize(ctx.tab) <= Cap
=============================================================================
