------------------------------- MODULE DeltaGen -------------------------------
(* Generator of legal delta frame sequences for the real decoder (run with      *)
(* -simulate): operation lists in any order and number, including what the      *)
(* encoder never chooses (default entries of :path, single toggles of adjacent  *)
(* numbers, several lists of one kind, empty frames).  Prints each behaviour.   *)
EXTENDS DeltaStore, DeltaStatic, HuffTree, TLC, Json
CONSTANTS maxb, maxe, Request, Frames, MaxOps
VARIABLES st, x, body, k, frames, done
vars == <<st, x, body, k, frames, done>>
Cfg == [maxb |-> maxb, maxe |-> maxe, maxn |-> 65536]
Tree == IF Request THEN HuffReq1 ELSE HuffRes1
GenKeys == { <<97>>, <<120, 45, 97>>, <<98, 98, 98, 98, 98, 98>>, <<99, 111, 111, 107, 105, 101>>,
             <<97, 99, 99, 101, 112, 116>>, <<58, 112, 97, 116, 104>> }
GenVals == { <<>>, <<97>>, <<98, 99>>, <<49, 50, 51, 52, 53, 54, 55>>, [i \in 1..20 |-> 100], [i \in 1..33 |-> 200] }
Pick(S) == RandomElement(S)
Num(n) == <<n \div 256, n % 256>>
S1(s) == WriteHuff(Tree, s)
Free == Numbers(st) \ x.tog
Init == /\ st = Enter(NewStore, 1) /\ x = NoOps /\ body = <<>> /\ k = 0 /\ frames = <<>> /\ done = FALSE
Add(code, n, bytes, y) == /\ k < MaxOps /\ ~done /\ body' = body \o <<code, n - 1>> \o bytes /\ x' = y /\ k' = k + 1
                          /\ UNCHANGED <<st, frames, done>>
Dyn == {st.ring[i].n : i \in 1..Len(st.ring)} \ x.tog
PickNo == IF Dyn # {} /\ Pick(1..3) > 1 THEN Pick(Dyn) ELSE Pick(Free)
Toggles ==
  \E n \in {Pick({1, 2, 5})} : \E ns \in {[i \in 1..n |-> PickNo]} :
    LET S == ToSet(ns)  q == SetToSeq(S) IN
    Add(1, Len(q), FlattenSeq([i \in 1..Len(q) |-> Num(q[i])]), [x EXCEPT !.tog = @ \cup S])
Ranges ==
  \E s \in {PickNo} : \E d \in {Pick(0..5)} :
    /\ (s..(s + d)) \subseteq Free
    /\ Add(2, 1, Num(s + d) \o Num(s), [x EXCEPT !.tog = @ \cup s..(s + d)])
Clone ==
  \E key \in {Pick(DOMAIN st.keys)} : \E v \in {Pick(GenVals)} :
    Add(3, 1, Num(st.keys[key]) \o S1(v), [x EXCEPT !.lits = Append(@, <<key, v>>), !.later = Append(@, <<key, v>>)])
Literal ==
  \E key \in {Pick(GenKeys)} : \E v \in {Pick(GenVals)} : \E c \in {Pick({4, 5})} :
    Add(c, 1, S1(key) \o S1(v), [x EXCEPT !.lits = Append(@, <<key, v>>),
                                          !.later = IF c = 5 THEN @ ELSE Append(@, <<key, v>>)])
Close ==
  /\ ~done
  /\ LET f == <<Len(body) \div 256, Len(body) % 256, 1, 128, 0, 4, 210, 8, st.gid>> \o body
     IN /\ frames' = Append(frames, f) /\ done' = (Len(frames) + 1 >= Frames)
        /\ IF Len(frames) + 1 >= Frames THEN PrintT("FEED " \o ToJson(Append(frames, f))) ELSE TRUE
  /\ \E g \in {Pick({0, 1, 2, 254})} : st' = Enter(Execute(Toggled(st, x), x, Cfg), g)
  /\ x' = NoOps /\ body' = <<>> /\ k' = 0
Next == Toggles \/ Ranges \/ Clone \/ Clone \/ Literal \/ Literal \/ (k > 1 /\ Close)
Spec == Init /\ [][Next]_vars
Sound == StoreOk(st, Cfg)
=============================================================================
