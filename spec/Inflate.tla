------------------------------- MODULE Inflate -------------------------------
(* The DEFLATE format (RFC 1951) as operators on a byte sequence F: bits are    *)
(* numbered from 0, the least significant bit of each byte first.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Pow2 == [i \in 0..16 |-> 2 ^ i]
BitAt(F, p) == (F[(p \div 8) + 1] \div Pow2[p % 8]) % 2
RECURSIVE BitsAt(_, _, _)
BitsAt(F, p, n) == IF n = 0 THEN 0 ELSE BitAt(F, p) + 2 * BitsAt(F, p + 1, n - 1)
HasBits(F, p, n) == p + n <= 8 * Len(F)

\* A Huffman code from the lengths of its words (lens[i] belongs to symbol i-1):
\* cnt[l] words of length l; sym: the symbols by length, then value.
Code(lens) ==
  LET idx == [i \in 1..Len(lens) |-> i - 1]
      ofLen(l) == SelectSeq(idx, LAMBDA s : lens[s + 1] = l)
      parts == [l \in 1..15 |-> ofLen(l)]
  IN [cnt |-> [l \in 1..15 |-> Len(parts[l])], sym |-> FlattenSeq(parts)]
\* words of length l that a code of those lengths leaves over (negative: too many)
RECURSIVE LeftOver(_, _, _)
LeftOver(code, l, left) ==
  IF l > 15 THEN left ELSE LeftOver(code, l + 1, 2 * left - code.cnt[l])
Legal(code) == LeftOver(code, 1, 1) = 0 \/ (LeftOver(code, 1, 1) > 0 /\ Len(code.sym) <= 1)

\* the symbol whose word starts at bit p; n: length of the word (0: none)
NoSym == [sym |-> -1, n |-> 0]
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(F, p, code, l, word, first, index) ==
  IF l > 15 \/ ~HasBits(F, p, l) THEN NoSym
  ELSE LET w == 2 * word + BitAt(F, p + l - 1)
           c == code.cnt[l]
       IN IF w - first < c THEN [sym |-> code.sym[index + w - first + 1], n |-> l]
          ELSE Walk(F, p, code, l + 1, w, 2 * (first + c), index + c)
Symbol(F, p, code) == Walk(F, p, code, 1, 0, 0, 0)

FixedLit == Code([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8])
FixedDist == Code([i \in 1..30 |-> 5])
LenBase == <<3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258>>
LenExtra == <<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0>>
DistBase == <<1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073,
              4097, 6145, 8193, 12289, 16385, 24577>>
DistExtra == <<0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13>>
LensOrder == <<16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15>>

\* a length/distance pair whose length symbol (of n bits) starts at p
NoCopy == [ok |-> FALSE, len |-> 0, dist |-> 0, next |-> 0]
Copy(F, p, s, dcode) ==
  LET li == s.sym - 256
      p1 == p + s.n
  IN IF li \notin 1..29 \/ ~HasBits(F, p1, LenExtra[li]) THEN NoCopy
     ELSE LET len == LenBase[li] + BitsAt(F, p1, LenExtra[li])
              p2 == p1 + LenExtra[li]
              d == Symbol(F, p2, dcode)
              p3 == p2 + d.n
          IN IF d.n = 0 \/ d.sym > 29 \/ ~HasBits(F, p3, DistExtra[d.sym + 1]) THEN NoCopy
             ELSE [ok |-> TRUE, len |-> len, dist |-> DistBase[d.sym + 1] + BitsAt(F, p3, DistExtra[d.sym + 1]),
                   next |-> p3 + DistExtra[d.sym + 1]]
\* what a copy yields when win was put out before the current text cur
Copied(win, cur, len, dist) ==
  LET at(i) ==      \* i-th byte (from 1), i <= dist
        LET k == Len(cur) - dist + i IN IF k >= 1 THEN cur[k] ELSE win[Len(win) + k]
      m == IF len < dist THEN len ELSE dist
      piece == [i \in 1..m |-> at(i)]
  IN [i \in 1..len |-> piece[((i - 1) % m) + 1]]
=============================================================================
