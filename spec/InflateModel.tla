---------------------------- MODULE InflateModel ----------------------------
(* Sanity of Inflate.tla: a legal code is complete and prefix free - exactly    *)
(* 2^(8-n) bytes begin with each word of n bits -, and a copy means what        *)
(* copying byte by byte means.                                                  *)
EXTENDS Inflate
CONSTANTS Symbols, MaxLen, MaxText
VARIABLES lens, win, cur, done
vars == <<lens, win, cur, done>>
Texts == UNION {[1..n -> {1, 2}] : n \in 0..MaxText}
Init == lens \in [1..Symbols -> 0..MaxLen] /\ win = <<>> /\ cur = <<>> /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED lens
        /\ IF lens = [i \in 1..Symbols |-> 1] THEN win' \in Texts /\ cur' \in Texts ELSE UNCHANGED <<win, cur>>
Spec == Init /\ [][Next]_vars
Reads(b, c) == Symbol(<<b, 0>>, 0, c)
CodeOk ==
  LET c == Code(lens) IN
  (Legal(c) /\ Len(c.sym) > 1) =>
    /\ \A b \in 0..255 : Reads(b, c).n # 0 /\ lens[Reads(b, c).sym + 1] = Reads(b, c).n
    /\ \A s \in 1..Symbols : lens[s] # 0 =>
         Cardinality({b \in 0..255 : Reads(b, c).sym = s - 1}) = 256 \div Pow2[lens[s]]
RECURSIVE Slowly(_, _, _)
Slowly(text, len, dist) == IF len = 0 THEN text ELSE Slowly(Append(text, text[Len(text) - dist + 1]), len - 1, dist)
CopyOk ==
  \A len \in 1..5 : \A dist \in 1..(Len(win) + Len(cur)) :
    win \o cur \o Copied(win, cur, len, dist) = Slowly(win \o cur, len, dist)
=============================================================================
