-------------------------------- MODULE Text --------------------------------
(* Text as sequences of code points: case, tokens, decimal numbers, lines.    *)
EXTENDS Util, TLC

LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]

IndexIn(s, S) ==      \* first position holding a character of S, or 0
  LET P == {i \in 1..Len(s) : s[i] \in S} IN IF P = {} THEN 0 ELSE Min(P)
Before(s, S) == LET i == IndexIn(s, S) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i-1)
From(s, S)   == LET i == IndexIn(s, S) IN IF i = 0 THEN <<>> ELSE SubSeq(s, i, Len(s))
After(s, S)  == LET i == IndexIn(s, S) IN IF i = 0 THEN <<>> ELSE SubSeq(s, i+1, Len(s))
Rest(s, k)   == IF k > Len(s) THEN <<>> ELSE SubSeq(s, k, Len(s))

SplitAny(s, S) ==     \* split at every character of S
  LET cuts == SetToSortSeq({i \in 1..Len(s) : s[i] \in S}, <)
      n == Len(cuts)
  IN IF n = 0 THEN <<s>>
     ELSE [k \in 1..(n+1) |->
            IF k = 1 THEN SubSeq(s, 1, cuts[1]-1)
            ELSE IF k = n+1 THEN SubSeq(s, cuts[n]+1, Len(s))
            ELSE SubSeq(s, cuts[k-1]+1, cuts[k]-1)]

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

Names(hs) == {hs[i][1] : i \in 1..Len(hs)}
Get(hs, n) == LET I == {i \in 1..Len(hs) : hs[i][1] = n} IN
              IF I = {} THEN <<>> ELSE hs[Max(I)][2]
Has(hs, n) == n \in Names(hs)
\* a dictionary given as pairs, as a set (later pairs win)
Dict(hs) == {<<n, Get(hs, n)>> : n \in Names(hs)}
Drop(hs, S) == SelectSeq(hs, LAMBDA h : h[1] \notin S)
=============================================================================
