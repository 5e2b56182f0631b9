--------------------------------- MODULE Wire ---------------------------------
(* Byte-level encodings used by the wire formats.  Every reader is total: it   *)
(* returns [ok, val, next] with next the 1-based position after the item.      *)
EXTENDS Util
Bad == [ok |-> FALSE, val |-> 0, next |-> 1]
Pow2(k) == 2^k

\* continuation bytes, least significant group first, 7 bits each
RECURSIVE ReadTail(_, _, _, _, _)
ReadTail(f, pos, end, acc, shift) ==
  IF pos > end \/ shift > 21 THEN Bad
  ELSE LET b == f[pos]
           a == acc + (b % 128) * Pow2(shift)
       IN IF b < 128 THEN [ok |-> TRUE, val |-> a, next |-> pos + 1]
          ELSE ReadTail(f, pos + 1, end, a, shift + 7)

\* an integer whose first part sits in the low `prefix` bits of byte f[pos-1]
\* (prefix = 0 : nothing was read yet, the whole integer is in the tail)
ReadInt(f, pos, end, first, prefix) ==
  LET m == Pow2(prefix) - 1
      low == first % Pow2(prefix)
  IN IF prefix > 0 /\ low < m THEN [ok |-> TRUE, val |-> low, next |-> pos]
     ELSE ReadTail(f, pos, end, m, 0)

ReadStr(f, pos, end) ==      \* length-prefixed literal string
  LET n == ReadInt(f, pos, end, 0, 0) IN
  IF ~n.ok \/ n.next + n.val - 1 > end THEN Bad
  ELSE [ok |-> TRUE, val |-> SubSeq(f, n.next, n.next + n.val - 1), next |-> n.next + n.val]

\* the writers (used to generate frames from the specification)
RECURSIVE WriteTail(_)
WriteTail(v) == IF v < 128 THEN <<v>> ELSE <<128 + (v % 128)>> \o WriteTail(v \div 128)
WriteInt(flags, prefix, v) ==
  LET m == Pow2(prefix) - 1 IN
  IF prefix > 0 /\ v < m THEN <<flags + v>>
  ELSE (IF prefix > 0 THEN <<flags + m>> ELSE <<>>) \o WriteTail(v - m)
WriteStr(s) == WriteInt(0, 0, Len(s)) \o s
=============================================================================
