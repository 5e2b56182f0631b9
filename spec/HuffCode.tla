-------------------------------- MODULE HuffCode --------------------------------
(* Prefix codes.  A code is a sequence of bit strings, one per symbol (symbol     *)
(* i-1 at position i); weights are natural numbers.                               *)
EXTENDS BitFifo, TLC

\* the set of code words is prefix-free and complete: every infinite bit string
\* starts with exactly one of them
RECURSIVE FullTree(_)
FullTree(C) ==
  IF <<>> \in C THEN Cardinality(C) = 1
  ELSE LET half(b) == {SubSeq(x, 2, Len(x)) : x \in {y \in C : y[1] = b}} IN
       C # {} /\ FullTree(half(0)) /\ FullTree(half(1))
IsCode(codes) == LET C == {codes[i] : i \in 1..Len(codes)} IN Cardinality(C) = Len(codes) /\ FullTree(C)

\* canonical: in the order of length, then symbol, each code word is the next
\* number of its length
RECURSIVE Inc(_)
Inc(b) == IF b = <<>> THEN <<>> ELSE IF b[Len(b)] = 0 THEN [b EXCEPT ![Len(b)] = 1]
          ELSE Append(Inc(SubSeq(b, 1, Len(b) - 1)), 0)
ByLength(lens) == SortSeq([i \in 1..Len(lens) |-> i], LAMBDA i, j : lens[i] < lens[j] \/ (lens[i] = lens[j] /\ i < j))
Canon(lens) ==
  LET order == ByLength(lens)
      step(a, i) == LET nx == IF a.n = 0 THEN <<>> ELSE Inc(a.last) IN
                    LET b == nx \o Zeros(lens[i] - Len(nx)) IN
                    [n |-> a.n + 1, last |-> b, map |-> [a.map EXCEPT ![i] = b]]
  IN FoldLeft(step, [n |-> 0, last |-> <<>>, map |-> [i \in 1..Len(lens) |-> <<>>]], order).map
IsCanonical(codes) == codes = Canon([i \in 1..Len(codes) |-> Len(codes[i])])

\* the least total weighted length of any prefix code: merge the two lightest,
\* again and again (each merge costs the weight merged)
Best(ws) ==
  LET s == SortSeq(ws, LAMBDA a, b : a < b)
      \* i, j : next unused leaf / merged node
      lighter(st) == IF st.i <= Len(s) /\ (st.j > Len(st.m) \/ s[st.i] <= st.m[st.j])
                     THEN [w |-> s[st.i], st |-> [st EXCEPT !.i = @ + 1]]
                     ELSE [w |-> st.m[st.j], st |-> [st EXCEPT !.j = @ + 1]]
      step(st, k) == LET a == lighter(st) b == lighter(a.st) IN
                     [b.st EXCEPT !.m = Append(@, a.w + b.w), !.cost = @ + a.w + b.w]
  IN FoldLeft(step, [i |-> 1, j |-> 1, m |-> <<>>, cost |-> 0], [k \in 1..(Len(ws) - 1) |-> k]).cost
CostOf(ws, codes) == FoldLeft(LAMBDA a, i : a + ws[i] * Len(codes[i]), 0, [i \in 1..Len(ws) |-> i])

Code(codes, text) == FlattenSeq([i \in 1..Len(text) |-> codes[text[i] + 1]])
\* reading symbols off the front of a bit string until it is used up; <<-1>> if it
\* does not consist of whole code words
RECURSIVE Decoded(_, _)
Decoded(codes, bits) ==
  IF bits = <<>> THEN <<>>
  ELSE LET hit == {i \in 1..Len(codes) : Len(codes[i]) <= Len(bits) /\ SubSeq(bits, 1, Len(codes[i])) = codes[i]} IN
       IF Cardinality(hit) # 1 THEN <<-1>>
       ELSE LET i == CHOOSE i \in hit : TRUE IN
            <<i - 1>> \o Decoded(codes, SubSeq(bits, Len(codes[i]) + 1, Len(bits)))
=============================================================================
