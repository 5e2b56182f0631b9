--------------------------------- MODULE BitOps ---------------------------------
(* Histories for the conformance test: every operation from every alignment of   *)
(* the write and read positions, as operation names and bit counts only.         *)
EXTENDS BitFifo, TLC, Json
CONSTANTS Span, MaxOp
VARIABLES w, r, hist
vars == <<w, r, hist>>
Log(op, n) == hist' = Append(hist, <<op, n>>) /\ PrintT("HIST " \o ToJson(Append(hist, <<op, n>>)))
Init == w = 0 /\ r = 0 /\ hist = <<>>
Fixed == {<<"s1", 1>>, <<"s4", 4>>, <<"s8", 8>>, <<"s16", 16>>, <<"s22", 22>>, <<"s32", 32>>}
Gets == {<<"g1", 1>>, <<"g4", 4>>, <<"g8", 8>>, <<"g16", 16>>, <<"g32", 32>>}
Next == \/ \E n \in 0..MaxOp : w' = w + n /\ r' = r /\ Log("store", n)
        \/ \E f \in Fixed : w' = w + f[2] /\ r' = r /\ Log(f[1], f[2])
        \/ \E n \in 0..Min2(MaxOp, w - r) : r' = r + n /\ w' = w /\ Log("get", n)
        \/ \E f \in Gets : f[2] <= w - r /\ r' = r + f[2] /\ w' = w /\ Log(f[1], f[2])
        \/ \E n \in {1, 8, 9} : UNCHANGED <<w, r>> /\ Log("over", n)
        \/ w' = w + Short(w) /\ r' = r /\ Log("pad", 0)
        \/ r + Short(r) <= w /\ r' = r + Short(r) /\ w' = w /\ Log("align", 0)
        \/ w' = 0 /\ r' = 0 /\ Log("clear", 0)
        \/ UNCHANGED <<w, r>> /\ Log("all", 0)
Spec == Init /\ [][Next]_vars
Bound == w - r <= Span
View == <<w % 8, r % 8, w - r>>
=============================================================================
