-------------------------------- MODULE HuffModel --------------------------------
(* The notions of HuffCode.tla checked against their definitions: for every small *)
(* table of weights, Best is the minimum over all complete length assignments;    *)
(* every complete length assignment has a canonical code, which is a complete     *)
(* prefix code whose encodings decode uniquely, also in a longer bit string; and  *)
(* the code built by the merging construction reaches the minimum.                *)
EXTENDS HuffCode
CONSTANTS Syms, MaxW, MaxText
VARIABLES ws, text
vars == <<ws, text>>
Ns == 2..Syms
Sum2(lens, top) == FoldLeft(LAMBDA a, x : a + Pow2(top - x), 0, lens)
Kraft(n) == {f \in [1..n -> 1..(n - 1)] : Sum2(f, n - 1) = Pow2(n - 1)}
KraftSets == [n \in Ns |-> Kraft(n)]
Total(w, lens) == FoldLeft(LAMBDA a, i : a + w[i] * lens[i], 0, [i \in 1..Len(w) |-> i])
\* the merging construction, keeping the symbols below each node
RECURSIVE Merge(_, _)
Merge(nodes, lens) ==
  IF Cardinality(nodes) = 1 THEN lens
  ELSE LET light(S) == CHOOSE x \in S : \A y \in S : x[1] <= y[1]
           a == light(nodes)  b == light(nodes \ {a})
           under == a[2] \cup b[2]
       IN Merge((nodes \ {a, b}) \cup {<<a[1] + b[1], under>>}, [i \in DOMAIN lens |-> IF i \in under THEN lens[i] + 1 ELSE lens[i]])
Built(w) == Merge({<<w[i], {i}>> : i \in 1..Len(w)}, [i \in 1..Len(w) |-> 0])
Init == /\ \E n \in Ns : ws \in [1..n -> 0..MaxW]
        /\ text = <<>>
Next == Len(text) < MaxText /\ (\E c \in 0..(Len(ws) - 1) : text' = Append(text, c)) /\ UNCHANGED ws
Spec == Init /\ [][Next]_vars
BestIsLeast == text = <<>> => Best(ws) = Min({Total(ws, lens) : lens \in KraftSets[Len(ws)]})
BuiltIsBest == text = <<>> => LET lens == Built(ws) codes == Canon(lens) IN
                 IsCode(codes) /\ CostOf(ws, codes) = Best(ws)
CanonIsCode == (text = <<>> /\ \A i \in 1..Len(ws) : ws[i] = 0) => \A lens \in KraftSets[Len(ws)] : IsCode(Canon(lens)) /\ IsCanonical(Canon(lens))
RoundTrip == LET codes == Canon(Built(ws)) IN Decoded(codes, Code(codes, text)) = text
=============================================================================
