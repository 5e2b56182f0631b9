---------------------------- MODULE HeaderDiffModel ----------------------------
(* Design model of the HeaderDiff codec.  The encoder follows the published     *)
(* strategy, where it is not determined (several equally good references, the   *)
(* order of a hash table) every choice is a transition; the decoder applies the *)
(* items.  One Send per compress/decompress pair.                               *)
EXTENDS HeaderDiffTable, TLC, Json
CONSTANTS Universe,      \* sequence of <<name, value>>
          Names0,        \* names registered in advance
          Cap,           \* limit of the indexed values
          Delta,         \* "none", "full", "bound", "max"
          Limits,        \* end bytes of a prefix in "bound"
          Uses,          \* limit of "max"
          Novelty,       \* requests with a small table want new text before appending
          Strict,        \* TRUE: size checks as designed; FALSE: a broken variant
          MaxSet, MaxDepth, Emit

VARIABLES enc,           \* encoder: context plus age and use count per entry
          dec, last, hist
vars == <<enc, dec, last, hist>>

CommonPrefix(a, b) ==
  LET m == Min2(Len(a), Len(b))
      diff == {i \in 1..m : a[i] # b[i]}
  IN IF diff = {} THEN m ELSE Min(diff) - 1
PrefixFor(a, b) ==
  LET k == CommonPrefix(a, b) IN
  IF Delta # "bound" THEN k
  ELSE LET S == {i \in 1..k : a[i] \in Limits} IN IF S = {} THEN 0 ELSE Max(S)

Find(c, h) == LET S == {j \in 1..Len(c.tab) : c.tab[j].n = h[1] /\ c.tab[j].v = h[2]}
              IN IF S = {} THEN 0 ELSE Min(S)

PathName == <<58, 112, 97, 116, 104>>
Fits(n) == IF Strict THEN n < Cap ELSE n <= Cap + 1
IsNew(c, n) == \A j \in 1..Len(c.names) : c.names[j] # n
Lit(c, h, ix, i) == [op |-> "lit", ix |-> ix, n |-> h[1], new |-> IsNew(c, h[1]), i |-> i, s |-> h[2]]

\* the items the strategy may choose for header h in encoder state e
Options(e, h) ==
  LET c == e.c
      at == Find(c, h)
      len == Len(h[2])
      cands == IF Delta = "none" THEN {}
               ELSE {j \in 1..Len(c.tab) : c.tab[j].n = h[1] /\ (Delta = "max" => e.use[j] < Uses)}
      k(j) == PrefixFor(h[2], c.tab[j].v)
      best == IF cands = {} THEN 0 ELSE Max({k(j) : j \in cands})
      tied == {j \in cands : k(j) = best}
      added(j) == len - Len(c.tab[j].v)
  IN IF at # 0 THEN {[op |-> "idx", i |-> at - 1]}
     ELSE IF Delta = "none" /\ h[1] = PathName THEN {Lit(c, h, "no", 0)}
     ELSE IF best > 1 THEN
       { [op |-> "delta", i |-> j-1, k |-> best, s |-> Slice(h[2], best+1, len),
          ix |-> IF (~Novelty \/ added(j) > 15) /\ Fits(c.size + len) THEN "inc"
                 ELSE IF Fits(c.size + added(j)) THEN "sub" ELSE "no"] : j \in tied }
     ELSE IF Fits(c.size + len) THEN {Lit(c, h, "inc", 0)}
     ELSE LET old == {j \in 1..Len(c.tab) : e.age[j] > 1 /\ Fits(c.size + added(j))}
              oldest == IF old = {} THEN {} ELSE {j \in old : e.age[j] = Max({e.age[x] : x \in old})}
          IN IF oldest = {} THEN {Lit(c, h, "no", 0)}
             ELSE {Lit(c, h, "sub", j-1) : j \in oldest}

Step(e, it) ==
  LET c == Apply(e.c, it)
      grow == Len(c.tab) > Len(e.c.tab)
      touch == IF grow THEN Len(c.tab) ELSE IF UsesEntry(it) /\ (it.op = "idx" \/ it.ix = "sub") THEN it.i + 1 ELSE 0
      fresh == it.op # "idx" /\ it.ix = "sub"
      use1 == IF it.op = "delta" /\ ~fresh THEN [e.use EXCEPT ![it.i+1] = @ + 1] ELSE e.use
  IN [c |-> c,
      age |-> IF grow THEN Append(e.age, 0) ELSE IF touch # 0 THEN [e.age EXCEPT ![touch] = 0] ELSE e.age,
      use |-> IF grow THEN Append(use1, 0) ELSE IF fresh THEN [use1 EXCEPT ![it.i+1] = 0] ELSE use1,
      items |-> Append(e.items, it)]

RECURSIVE Encodings(_, _)
Encodings(e, hs) == IF hs = <<>> THEN {e}
                    ELSE UNION {Encodings(Step(e, it), Tail(hs)) : it \in Options(e, Head(hs))}

Decode(c, items) == FoldLeft(LAMBDA a, it : Apply(a, it), BeginFrame(c), items)

Orders == UNION { {s \in [1..m -> 1..Len(Universe)] : \A i, j \in 1..m : i # j => s[i] # s[j]} : m \in 0..MaxSet }
HdrSeq(o) == [i \in 1..Len(o) |-> Universe[o[i]]]

Init == /\ enc = [c |-> ContextOf(Names0), age |-> <<>>, use |-> <<>>, items |-> <<>>]
        /\ dec = ContextOf(Names0) /\ last = <<>> /\ hist = <<>>

Send(o) ==
  /\ Len(hist) < MaxDepth
  /\ \E e \in Encodings([enc EXCEPT !.c.out = <<>>, !.items = <<>>,
                                    !.age = [j \in 1..Len(enc.age) |-> enc.age[j] + 1]], HdrSeq(o)) :
        /\ enc' = e /\ dec' = Decode(dec, e.items)
  /\ last' = HdrSeq(o)
  /\ hist' = Append(hist, o)
  /\ IF Emit THEN PrintT("HIST " \o ToJson(Append(hist, o))) ELSE TRUE

Next == \E o \in Orders : Send(o)
Spec == Init /\ [][Next]_vars
View == <<enc.c.tab, enc.c.names, [j \in 1..Len(enc.age) |-> Min2(enc.age[j], 3)], enc.use, Len(hist)>>

RoundTrip == dec.out = last
InSync    == dec.tab = enc.c.tab /\ dec.names = enc.c.names /\ dec.size = enc.c.size
Bounded   == TabSize(dec.tab) = dec.size /\ dec.size <= Cap
NoDup     == \A i, j \in 1..Len(dec.tab) : dec.tab[i] = dec.tab[j] => i = j
StepRoundTrip == [][RoundTrip']_vars
StepInSync    == [][InSync']_vars
\* headers that are all stored are sent as references only
StepCheap     == [][(\A i \in 1..Len(last') : Find(enc.c, last'[i]) # 0)
                     => \A i \in 1..Len(enc'.items) : enc'.items[i].op = "idx"]_vars
=============================================================================
