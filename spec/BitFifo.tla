-------------------------------- MODULE BitFifo --------------------------------
(* A BitBucket seen from outside: a queue of bits.                               *)
(*  q = [bits : Seq({0,1}), rd : number of bits consumed]                        *)
(* Bits travel in byte lists, left-aligned: the first bit is the most            *)
(* significant bit of the first byte and the unused end of the last byte is 0.   *)
EXTENDS Util
Empty == [bits |-> <<>>, rd |-> 0]
Pow2(n) == 2 ^ n
\* the first n bits of a byte list
Unpack(bytes, n) == [i \in 1..n |-> (bytes[((i - 1) \div 8) + 1] \div Pow2(7 - ((i - 1) % 8))) % 2]
ByteAt(bits, k) == FoldLeft(LAMBDA a, j : 2*a + (IF 8*(k-1) + j <= Len(bits) THEN bits[8*(k-1) + j] ELSE 0), 0, <<1,2,3,4,5,6,7,8>>)
Pack(bits) == [k \in 1..((Len(bits) + 7) \div 8) |-> ByteAt(bits, k)]
\* a number given by its bytes (most significant first), its n least significant bits
Low(bytes, n) == LET all == Unpack(bytes, 8 * Len(bytes)) IN SubSeq(all, Len(all) - n + 1, Len(all))
Zeros(n) == [i \in 1..n |-> 0]
Short(n) == (8 - (n % 8)) % 8

Put(q, bits) == [q EXCEPT !.bits = @ \o bits]
Left(q) == Len(q.bits) - q.rd
Peek(q, n) == [i \in 1..n |-> IF q.rd + i <= Len(q.bits) THEN q.bits[q.rd + i] ELSE 0]
Skip(q, n) == [q EXCEPT !.rd = @ + n]
Pad(q) == Put(q, Zeros(Short(Len(q.bits))))
AlignRead(q) == Skip(q, Short(q.rd))
=============================================================================
