------------------------------- MODULE Delta2Gen -------------------------------
(* Generator of legal delta2 frame sequences for the real decoder (run with      *)
(* -simulate): every operation of the format in any order and number, including  *)
(* those the encoder never chooses (one-shot literals, ranges over the static    *)
(* entries, toggles that cancel out, several groups).  Prints each behaviour.    *)
EXTENDS Delta2Store, Delta2Static, HuffTree, TLC, Json
CONSTANTS maxb, maxe, maxi, hg, imp, ref, end, Width, Request, Frames, MaxOps
VARIABLES st, x, bits, k, frames, done
vars == <<st, x, bits, k, frames, done>>
Cfg == [maxb |-> maxb, maxe |-> maxe, maxi |-> maxi, hg |-> hg, imp |-> imp, ref |-> ref, end |-> end]
Tree == IF Request THEN HuffReq2 ELSE HuffRes2

GenKeys == { <<97>>, <<120, 45, 97>>, <<99, 111, 111, 107, 105, 101>>, <<97, 99, 99, 101, 112, 116>> }
GenVals == { <<>>, <<97>>, <<98, 99>>, <<49, 50, 51, 52, 53, 54, 55>>, [i \in 1..20 |-> 100], [i \in 1..33 |-> 200] }

\* ---- writing ------------------------------------------------------------
RECURSIVE BitsOf(_, _)
BitsOf(v, n) == IF n = 0 THEN <<>> ELSE Append(BitsOf(v \div 2, n - 1), v % 2)
RECURSIVE TripleBits(_)
TripleBits(v) == IF v < 8 THEN BitsOf(v, 4) ELSE BitsOf(8 + (v % 8), 4) \o TripleBits(v \div 8)
IndexBits(i) == IF Width > 0 THEN BitsOf(i, Width)
                ELSE IF i < 15 THEN BitsOf(i, 4) ELSE BitsOf(15, 4) \o TripleBits(i - 15)
StrBits(s) == FlattenSeq([j \in 1..Len(s) |-> CodeWord(Tree, s[j])]) \o CodeWord(Tree, 256)
Pad(b) == b \o [j \in 1..((8 - (Len(b) % 8)) % 8) |-> 0]
WireIdx(s) == IF end THEN ToEnd(st, s) ELSE s

Usable == StoredSeqs(st) \cup 0..(Offset - 1)
Pick(S) == RandomElement(S)
PickSeq == IF StoredSeqs(st) # {} /\ Pick(1..3) > 1 THEN Pick(StoredSeqs(st)) ELSE Pick(0..(Offset - 1))
Init == /\ st = Enter(NewStore, 1) /\ x = NoOps /\ bits = <<>> /\ k = 0 /\ frames = <<>> /\ done = FALSE

\* header: 16-bit length, type 8, last frame, stream number, group
Add(code, n, b, y) == /\ k < MaxOps /\ ~done /\ Len(bits) < 4000
                      /\ bits' = bits \o BitsOf(code * 16 + n - 1, 8) \o b /\ x' = y /\ k' = k + 1
                      /\ UNCHANGED <<st, frames, done>>
\* a list of n toggles
Toggles ==
  \E n \in {Pick({1, 1, 2, 3, 16})} : \E c \in {Pick({0, 1})} :
  \E ss \in {[i \in 1..n |-> PickSeq]} :
    LET S == FoldLeft(LAMBDA a, s : XorSet(a, {s}), {}, ss)
        b == FlattenSeq([i \in 1..n |-> IndexBits(WireIdx(ss[i]))])
    IN Add(c, n, b, IF c = 0 THEN [x EXCEPT !.stog = XorSet(@, S)] ELSE [x EXCEPT !.etog = XorSet(@, S)])
Ranges ==
  \E s \in {PickSeq} : \E d \in {Pick(0..5)} : \E c \in {Pick({2, 3})} :
    LET t == s + d IN
    /\ \A y \in s..t : y \in Usable
    /\ Add(c, 1, IndexBits(WireIdx(t)) \o IndexBits(WireIdx(s)),
           IF c = 2 THEN [x EXCEPT !.stog = XorSet(@, s..t)] ELSE [x EXCEPT !.etog = XorSet(@, s..t)])
Clone ==
  \E s \in {PickSeq} : \E v \in {Pick(GenVals)} : \E c \in {Pick({4, 5})} :
    LET e == EntryAt(st, s)
        here == bits \o BitsOf(c * 16, 8) \o IndexBits(WireIdx(s)) \o StrBits(v)
        y == [x EXCEPT !.lits = Append(@, <<e.k, v>>),
                       !.later = IF c = 5 THEN @ ELSE Append(@, [s |-> 0, k |-> e.k, v |-> v, ki |-> e.ki, vi |-> -1])]
    IN /\ k < MaxOps /\ ~done /\ bits' = Pad(here) /\ x' = y /\ k' = k + 1 /\ UNCHANGED <<st, frames, done>>
Literal ==
  \E key \in {Pick(GenKeys)} : \E v \in {Pick(GenVals)} : \E c \in {Pick({6, 7})} :
    LET here == Pad(bits \o BitsOf(c * 16, 8) \o StrBits(key)) \o StrBits(v)
        y == [x EXCEPT !.lits = Append(@, <<key, v>>),
                       !.later = IF c = 7 THEN @ ELSE Append(@, [s |-> 0, k |-> key, v |-> v, ki |-> -1, vi |-> -1])]
    IN /\ k < MaxOps /\ ~done /\ bits' = Pad(here) /\ x' = y /\ k' = k + 1 /\ UNCHANGED <<st, frames, done>>
Close ==
  /\ ~done /\ k > 1
  /\ LET body == PackBits(bits)
         f == <<Len(body) \div 256, Len(body) % 256, 8, 1, 128, 0, 255, 255, st.gid>> \o body
     IN /\ frames' = Append(frames, f) /\ done' = (Len(frames) + 1 >= Frames)
        /\ IF Len(frames) + 1 >= Frames THEN PrintT("FEED " \o ToJson(Append(frames, f))) ELSE TRUE
  /\ \E g \in {Pick({0, 1, 2, 255})} : st' = Enter(Execute(Toggled(st, x), x, Cfg), g)
  /\ x' = NoOps /\ bits' = <<>> /\ k' = 0
Next == Toggles \/ Ranges \/ Clone \/ Clone \/ Literal \/ Literal \/ Close
Spec == Init /\ [][Next]_vars
Sound == StoreOk(st, Cfg)
=============================================================================
