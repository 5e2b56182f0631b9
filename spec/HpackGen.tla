-------------------------------- MODULE HpackGen --------------------------------
(* Generator of legal header blocks for the real decoder (run with -simulate):    *)
(* every representation, both string codings, size updates.  The names within a   *)
(* block are distinct, because the decoder's result is a dictionary.              *)
EXTENDS Hpack, Wire, HuffTree, TLC, Json
CONSTANTS Frames, MaxItems
VARIABLES ctx, body, k, frames, done
vars == <<ctx, body, k, frames, done>>
Cap == 4096
LitNames == { <<97>>, <<98>>, <<120, 45, 97>>, <<97, 99, 99, 101, 112, 116>>, <<58, 112, 97, 116, 104>> }
Vals == { <<>>, <<97>>, <<98, 1, 33>>, [i \in 1..45 |-> 100], [i \in 1..131 |-> 34 + (i % 90)], [i \in 1..300 |-> 102],
          [i \in 1..1400 |-> 103], [i \in 1..4070 |-> 104] }
Codes == [s \in 0..255 |-> CodeWord(HpackTree, s)]

Ones(bits) == bits \o [i \in 1..((8 - (Len(bits) % 8)) % 8) |-> 1]
Coded(s) == PackBits(Ones(FoldLeft(LAMBDA a, x : a \o Codes[x], <<>>, s)))
Text(s) == LET h == Coded(s) IN IF RandomElement({TRUE, FALSE}) /\ Len(s) < 400 THEN WriteInt(128, 7, Len(h)) \o h
           ELSE WriteInt(0, 7, Len(s)) \o s
Used == {ctx.out[i][1] : i \in 1..Len(ctx.out)}
Free == {j \in 1..(NStatic + Len(ctx.tab)) : FieldAt(ctx, j)[1] \notin Used}

Init == ctx = Fresh(Cap) /\ body = <<>> /\ k = 0 /\ frames = <<>> /\ done = FALSE
Put(bytes, it) == /\ k < MaxItems /\ ~done
                  /\ body' = body \o bytes /\ ctx' = ApplyItem(ctx, it) /\ k' = k + 1 /\ UNCHANGED <<frames, done>>
Idx == /\ Free # {}
       /\ \E recent \in {RandomElement({TRUE, FALSE})} :
          \E j \in {RandomElement(IF recent /\ \E i \in Free : i > NStatic THEN {i \in Free : i > NStatic} ELSE Free)} :
            Put(WriteInt(128, 7, j), [op |-> "idx", i |-> j])
Lit(op, flags, prefix) ==
  \E v \in {RandomElement(Vals)} : \E lit \in {RandomElement({TRUE, FALSE})} :
  IF lit /\ LitNames \ Used # {}
  THEN \E n \in {RandomElement(LitNames \ Used)} : \E tn \in {Text(n)} : \E tv \in {Text(v)} :
         Put(WriteInt(flags, prefix, 0) \o tn \o tv, [op |-> op, n |-> n, v |-> v])
  ELSE /\ Free # {}
       /\ \E j \in {RandomElement(Free)} : \E tv \in {Text(v)} :
            Put(WriteInt(flags, prefix, j) \o tv, [op |-> op, n |-> FieldAt(ctx, j)[1], v |-> v])
Size == /\ ctx.out = <<>> /\ k = 0 /\ RandomElement(1..4) = 1
        /\ \E s \in {RandomElement({0, 30, 31, 100, 1500, 4095, 4096})} : Put(WriteInt(32, 5, s), [op |-> "size", i |-> s])
Close == /\ ~done /\ k > 0
         /\ frames' = Append(frames, body) /\ done' = (Len(frames) + 1 >= Frames)
         /\ IF Len(frames) + 1 >= Frames THEN PrintT("FEED " \o ToJson(Append(frames, body))) ELSE TRUE
         /\ ctx' = NewBlock(ctx) /\ body' = <<>> /\ k' = 0
Next == Idx \/ Idx \/ Lit("inc", 64, 6) \/ Lit("not", 0, 4) \/ Lit("never", 16, 4) \/ Size \/ Close
Spec == Init /\ [][Next]_vars
Bounded == TabBytes(ctx.tab) <= ctx.cap
=============================================================================
