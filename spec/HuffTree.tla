------------------------------- MODULE HuffTree -------------------------------
(* Strings coded with a static prefix code given as a tree (HeaderDiffStatic):  *)
(* symbols most significant bit first, closed by symbol 256, padded to a byte.  *)
EXTENDS Wire
BitAt(f, p) == (f[((p - 1) \div 8) + 1] \div Pow2(7 - ((p - 1) % 8))) % 2     \* p : 1-based bit

\* Walks the tree 256 bits at a time.  (Two nested folds, because TLC evaluates
\* them eagerly and without a growing chain of lazy arguments; the symbols of a
\* chunk are collected apart because appending copies the sequence.)
HuffBit(tree, f, st, p) ==
  IF st.done THEN st
  ELSE LET c == tree[st.node][BitAt(f, p) + 1] IN
       IF c > 0 THEN [st EXCEPT !.node = c, !.p = p + 1]
       ELSE IF c = -257 THEN [st EXCEPT !.done = TRUE, !.p = p + 1]
       ELSE [done |-> FALSE, node |-> 1, p |-> p + 1, val |-> Append(st.val, -c - 1)]
HuffChunk(tree, f, st, lim) ==
  LET r == FoldLeft(LAMBDA a, p : HuffBit(tree, f, a, p), [st EXCEPT !.val = <<>>],
                    [k \in 1..Min2(256, lim - st.p + 1) |-> st.p + k - 1])
  IN [r EXCEPT !.val = st.val \o @]
HuffWalk(tree, f, st, lim) ==
  FoldLeft(LAMBDA a, k : IF a.done \/ a.p > lim THEN a ELSE HuffChunk(tree, f, a, lim), st,
           [k \in 1..((lim - st.p) \div 256 + 1) |-> k])
ReadHuff(tree, f, pos, end) ==
  IF pos > end THEN Bad
  ELSE LET r == HuffWalk(tree, f, [done |-> FALSE, node |-> 1, p |-> 8 * (pos - 1) + 1, val |-> <<>>], 8 * end)
       IN IF r.done THEN [ok |-> TRUE, val |-> r.val, next |-> (r.p - 2) \div 8 + 2] ELSE Bad

\* the code word of a symbol: the path from the root
RECURSIVE PathTo(_, _, _)
PathTo(tree, node, leaf) ==     \* <<>> plus a flag: <<found, bits>>
  LET l == tree[node][1]  r == tree[node][2] IN
  IF l = leaf THEN <<TRUE, <<0>>>> ELSE IF r = leaf THEN <<TRUE, <<1>>>>
  ELSE LET a == IF l > 0 THEN PathTo(tree, l, leaf) ELSE <<FALSE, <<>>>> IN
       IF a[1] THEN <<TRUE, <<0>> \o a[2]>>
       ELSE LET b == IF r > 0 THEN PathTo(tree, r, leaf) ELSE <<FALSE, <<>>>> IN
            IF b[1] THEN <<TRUE, <<1>> \o b[2]>> ELSE <<FALSE, <<>>>>
CodeWord(tree, sym) == PathTo(tree, 1, -sym - 1)[2]

PackBits(bits) ==
  LET n == (Len(bits) + 7) \div 8
      at(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
  IN [k \in 1..n |-> FoldLeft(LAMBDA a, j : 2 * a + at(8 * (k-1) + j), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
WriteHuff(tree, s) == PackBits(FlattenSeq([k \in 1..Len(s) |-> CodeWord(tree, s[k])]) \o CodeWord(tree, 256))
=============================================================================
