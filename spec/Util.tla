-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by every module: byte strings are sequences of       *)
(* integers 0..255; header sets are sets of <<name, value>> pairs.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

SumOver(s, f(_)) == FoldLeft(LAMBDA acc, x: acc + f(x), 0, s)

\* s[i..j] clipped to the sequence
Slice(s, i, j) == IF j < i THEN <<>> ELSE SubSeq(s, i, Min2(j, Len(s)))

\* ascending positions of byte c in s
Positions(s, c) == LET S == {i \in 1..Len(s) : s[i] = c} IN SetToSortSeq(S, <)

\* Split s at every occurrence of byte c (always at least one piece).
SplitAt(s, c) ==
  LET cuts == Positions(s, c) IN
  IF cuts = <<>> THEN <<s>>
  ELSE LET n == Len(cuts) IN
       [k \in 1..(n+1) |->
          IF k = 1 THEN SubSeq(s, 1, cuts[1]-1)
          ELSE IF k = n+1 THEN SubSeq(s, cuts[n]+1, Len(s))
          ELSE SubSeq(s, cuts[k-1]+1, cuts[k]-1)]

\* trim bytes in W from both ends
RECURSIVE FirstKept(_, _, _), LastKept(_, _, _)
FirstKept(s, W, i) == IF i > Len(s) \/ s[i] \notin W THEN i ELSE FirstKept(s, W, i + 1)
LastKept(s, W, i)  == IF i = 0 \/ s[i] \notin W THEN i ELSE LastKept(s, W, i - 1)
Trim(s, W) == LET i == FirstKept(s, W, 1) j == LastKept(s, W, Len(s))
              IN IF i > j THEN <<>> ELSE SubSeq(s, i, j)

SP == 32
WS == {9, 10, 11, 12, 13, 32}     \* what str.strip() removes
Cookie == <<99, 111, 111, 107, 105, 101>>

(* The abstract value of a header dictionary given as a sequence of           *)
(* <<name, value>> pairs: the set of its individual name/value pairs.  A      *)
(* cookie is a ';'-separated list of crumbs, every other header a             *)
(* NUL-separated list of instances; surrounding white space is not            *)
(* significant.                                                               *)
NormWith(hdrs, W) ==
  UNION { { <<hdrs[i][1], Trim(x, W)>> :
              x \in ToSet(SplitAt(hdrs[i][2], IF hdrs[i][1] = Cookie THEN 59 ELSE 0)) }
          : i \in 1..Len(hdrs) }
Norm(hdrs) == NormWith(hdrs, WS)

\* Some pair of dec occurs more often than in hdrs: each individual pair counts on its own.
Pieces(h) == SplitAt(h[2], IF h[1] = Cookie THEN 59 ELSE 0)
OftenIn(hdrs, p, W) ==
  SumOver(hdrs, LAMBDA h : IF h[1] # p[1] THEN 0
                           ELSE LET s == Pieces(h) IN Cardinality({k \in 1..Len(s) : Trim(s[k], W) = p[2]}))
RepeatsWith(dec, hdrs, W) ==
  LET S == NormWith(dec, W) IN
  SumOver(dec, LAMBDA h : Len(Pieces(h))) > Cardinality(S) /\ \E p \in S : OftenIn(dec, p, W) > OftenIn(hdrs, p, W)
Repeats(dec, hdrs) == RepeatsWith(dec, hdrs, WS)

=============================================================================
