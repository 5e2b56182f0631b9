------------------------------ MODULE BitPackModel ------------------------------
(* The packed representation every BitBucket uses - a list of words of W bits,    *)
(* an offset into the last one, a read position as word and offset - refines the  *)
(* bit queue of BitFifo.tla.  The transcription follows StoreBits and GetBits,     *)
(* with the word width as a parameter so that all alignments fit a small model.    *)
EXTENDS BitFifo, TLC
CONSTANTS W, MaxBits, MaxOp
VARIABLES out, boff, iw, ib, q, got
vars == <<out, boff, iw, ib, q, got>>
Full == Pow2(W) - 1
\* words of a left-aligned bit list
WordAt(bits, k) == FoldLeft(LAMBDA a, j : 2*a + (IF W*(k-1) + j <= Len(bits) THEN bits[W*(k-1) + j] ELSE 0), 0, [j \in 1..W |-> j])
Words(bits) == [k \in 1..((Len(bits) + W - 1) \div W) |-> WordAt(bits, k)]
Bits(ws, n) == [i \in 1..n |-> (ws[((i - 1) \div W) + 1] \div Pow2(W - 1 - ((i - 1) % W))) % 2]
Shl(x, n) == (x * Pow2(n)) % Pow2(W)
Shr(x, n) == x \div Pow2(n)
Keep(x, n) == x - (x % Pow2(W - n))       \* the n most significant bits of the word
SetLast(s, x) == [s EXCEPT ![Len(s)] = x]
\* word-wise or of operands that do not overlap
Or(a, b) == a + b
NumBits == W * Len(out) - (IF boff > 0 THEN W - boff ELSE 0)

StoreWords(ws, n) ==
  LET left == IF n % W = 0 THEN W ELSE n % W IN
  IF ws = <<>> THEN out' = out /\ boff' = boff
  ELSE IF boff = 0 THEN /\ out' = SetLast(out \o ws, Keep(ws[Len(ws)], left))
                        /\ boff' = left % W
  ELSE LET pushed == FoldLeft(LAMBDA o, x : Append(SetLast(o, Or(o[Len(o)], Shr(x, boff))), Shl(x, W - boff)), out, ws)
           cut == IF boff + left <= W THEN SubSeq(pushed, 1, Len(pushed) - 1) ELSE pushed
           nb == (boff + left) % W
       IN /\ boff' = nb
          /\ out' = IF nb # 0 THEN SetLast(cut, Keep(cut[Len(cut)], nb)) ELSE cut

\* reading n bits: whole words shifted together, then the rest bit run by bit run
RECURSIVE Whole(_, _, _), Rest(_, _, _, _, _)
Whole(w, n, acc) == IF n < W THEN <<w, n, acc>>
                    ELSE Whole(w + 1, n - W, Append(acc, Or(Shl(out[w + 1], ib), Shr(out[w + 2], W - ib))))
Rest(w, o, n, cur, c) ==
  IF n = 0 THEN <<w, o, cur>>
  ELSE LET k == Min2(Min2(W - c, W - o), n) IN
       Rest(IF o + k >= W THEN w + 1 ELSE w, (o + k) % W, n - k, Or(cur, Shr(Keep(Shl(out[w + 1], o), k), c)), c + k)
ReadWords(n) ==
  IF ib = 0
  THEN LET full == n \div W  r == n % W IN
       /\ got' = <<n, SubSeq(out, iw + 1, iw + full) \o (IF r > 0 THEN <<Keep(out[iw + full + 1], r)>> ELSE <<>>)>>
       /\ iw' = iw + full /\ ib' = r
  ELSE LET a == Whole(iw, n, <<>>)
           r == Rest(a[1], ib, a[2], 0, 0)
       IN /\ got' = <<n, a[3] \o (IF a[2] > 0 THEN <<r[3]>> ELSE <<>>)>>
          /\ iw' = r[1] /\ ib' = r[2]

Init == out = <<>> /\ boff = 0 /\ iw = 0 /\ ib = 0 /\ q = Empty /\ got = <<0, <<>>>>
DoStore == \E n \in 0..MaxOp : n + Len(q.bits) <= MaxBits /\ \E bits \in [1..n -> {0, 1}] :
             \* the caller's last word may carry rubbish beyond the n bits
             \E dirt \in {0, 1} :
             LET ws == Words(bits)
                 dirty == IF dirt = 1 /\ n % W # 0 THEN SetLast(ws, ws[Len(ws)] + Pow2(W - (n % W)) - 1) ELSE ws
             IN StoreWords(dirty, n) /\ q' = Put(q, bits) /\ got' = <<0, <<>>>> /\ UNCHANGED <<iw, ib>>
DoRead == \E n \in 0..Left(q) : ReadWords(n) /\ q' = Skip(q, n) /\ UNCHANGED <<out, boff>>
DoPad == /\ boff # 0 /\ Len(q.bits) + W <= MaxBits + W
         /\ boff' = 0 /\ q' = Put(q, Zeros(W - boff)) /\ got' = <<0, <<>>>> /\ UNCHANGED <<out, iw, ib>>
DoAlign == /\ ib # 0 /\ q.rd + W - ib <= Len(q.bits)
           /\ ib' = 0 /\ iw' = iw + 1 /\ q' = Skip(q, W - ib) /\ got' = <<0, <<>>>> /\ UNCHANGED <<out, boff>>
Next == DoStore \/ DoRead \/ DoPad \/ DoAlign
Spec == Init /\ [][Next]_vars
Refines == /\ NumBits = Len(q.bits) /\ W * iw + ib = q.rd
           /\ out = Words(q.bits)
\* what a read returns is what the queue would return
ReadsRight == [][ got'[1] > 0 => got'[2] = Words(Peek(q, got'[1])) ]_vars
=============================================================================
