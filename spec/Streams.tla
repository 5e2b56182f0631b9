------------------------------- MODULE Streams -------------------------------
(* Splitting a message list into streams.  A message is [req, res, host] with  *)
(* req and res dictionaries (sets of pairs) and host the value of ":host".     *)
EXTENDS Text, Lits

\* the part of the public suffix list that the workloads use
Wild == 42
Rules == { <<<<99,111,109>>>>,                                 \* com
           <<<<111,114,103>>>>,                                \* org
           <<<<110,101,116>>>>,                                \* net
           <<<<117,107>>>>, <<<<117,107>>, <<99,111>>>>,       \* uk, co.uk
           <<<<106,112>>>>, <<<<106,112>>, <<99,111>>>>,       \* jp, co.jp
           <<<<99,107>>, <<Wild>>>> }                          \* *.ck
Exceptions == { <<<<99,107>>, <<119,119,119>>>> }              \* !www.ck

Reverse2(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Match(rule, labels) == /\ Len(rule) <= Len(labels)
                       /\ \A i \in 1..Len(rule) : rule[i] = labels[i] \/ rule[i] = <<Wild>>
Registrable(host) ==
  LET labels == Reverse2(SplitAt(Trim(Lower(host), {46}), 46))
      hits == {r \in Rules : Match(r, labels)}
      n == IF \E x \in Exceptions : Match(x, labels)
           THEN Len(CHOOSE x \in Exceptions : Match(x, labels)) - 1
           ELSE IF hits = {} THEN 0        \* unknown top-level domain: itself
           ELSE Max({Len(r) : r \in hits})
      k == Min2(Len(labels), n + 1)
  IN Join(Reverse2(SubSeq(labels, 1, k)), <<46>>)

Key(kind, m) ==
  CASE kind = "all_one" -> sAll
    [] kind = "host" -> Trim(Lower(m.host), WS)
    [] kind = "public_suffix" -> Registrable(Before(m.host, {58}))
\* the host handed to the codec with the message
HostArg(kind, m) == IF kind = "host" THEN Trim(Lower(m.host), WS) ELSE m.host

Keys(kind, ms) ==       \* in order of first appearance
  LET first == {i \in 1..Len(ms) : \A j \in 1..(i-1) : Key(kind, ms[j]) # Key(kind, ms[i])}
      ord == SetToSortSeq(first, <)
  IN [i \in 1..Len(ord) |-> Key(kind, ms[ord[i]])]

Member(kind, ms, key, req) ==
  LET s == SelectSeq(ms, LAMBDA m : Key(kind, m) = key)
  IN [i \in 1..Len(s) |-> [hdrs |-> IF req THEN s[i].req ELSE s[i].res, host |-> HostArg(kind, s[i])]]

Streamify(kind, ms) ==
  LET ks == IF kind = "all_one" THEN <<sAll>> ELSE Keys(kind, ms)
  IN [k \in 1..(2 * Len(ks)) |->
        LET key == ks[(k + 1) \div 2] IN
        [name |-> key, req |-> k % 2 = 1, msgs |-> Member(kind, ms, key, k % 2 = 1)]]
=============================================================================
