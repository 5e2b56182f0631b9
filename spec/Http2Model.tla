------------------------------ MODULE Http2Model ------------------------------
(* Design model of the HTTP/2 (HPACK draft) codec: an encoder following the    *)
(* published strategy (diff against the reference set, toggle the removed      *)
(* entries off, send the new headers, re-send what eviction threw away), a     *)
(* decoder applying the items, and every history of header sets over a small   *)
(* universe.  One Send action per compress/decompress call pair.               *)
EXTENDS Http2Table, Http2Static, TLC, Json
CONSTANTS Universe,      \* sequence of <<name, value>>
          Cap,           \* table capacity
          Static,        \* initial table
          MaxSet,        \* largest header set sent
          ReSend,        \* "once" (repaired design) or "always" (original)
          Fuel,          \* bound on re-send rounds (detects divergence)
          MaxDepth,
          Emit           \* print every transition as a replayable history

VARIABLES enc, dec, last, hist, rounds, items
vars == <<enc, dec, last, hist, rounds, items>>

PathName == <<58, 112, 97, 116, 104>>

Find(t, h) == LET S == {k \in 1..Len(t) : t[k].n = h[1] /\ t[k].v = h[2]}
              IN IF S = {} THEN 0 ELSE Min(S)

\* encode one header in context c: [c, items]
EncodeOne(st, h) ==
  LET k == Find(st.c.tab, h) IN
  IF k # 0 THEN
     LET its == IF st.c.tab[k].ref THEN <<[op |-> "idx", i |-> k-1], [op |-> "idx", i |-> k-1]>>
                                   ELSE <<[op |-> "idx", i |-> k-1]>>
     IN [c |-> FoldLeft(LAMBDA a, it : Apply(a, it, Cap), st.c, its), items |-> st.items \o its]
  ELSE LET it == [op |-> IF h[1] = PathName THEN "not" ELSE "inc", n |-> h[1], v |-> h[2]]
       IN [c |-> Apply(st.c, it, Cap), items |-> Append(st.items, it)]

RECURSIVE ReEncode(_, _, _)
ReEncode(st, kept, fuel) ==
  LET gone == SelectSeq(kept, LAMBDA h : Find(st.c.tab, h) = 0) IN
  IF gone = <<>> \/ fuel = 0 THEN [st EXCEPT !.fuel = fuel]
  ELSE LET step(a, h) == IF Find(a.c.tab, h) = 0
                         THEN [EncodeOne(a, h) EXCEPT !.items = @] @@ [fuel |-> fuel, done |-> Append(a.done, h)]
                         ELSE a
           st2 == FoldLeft(step, [c |-> st.c, items |-> st.items, fuel |-> fuel, done |-> <<>>], kept)
           rest == SelectSeq(kept, LAMBDA h : \A k \in 1..Len(st2.done) : st2.done[k] # h)
       IN ReEncode([c |-> st2.c, items |-> st2.items, fuel |-> fuel],
                   IF ReSend = "once" THEN rest ELSE kept, fuel - 1)

Encode(c0, hs) ==     \* hs : sequence of distinct headers
  LET c1 == BeginFrame(c0)
      in == ToSet(hs)
      removed == SelectSeq([k \in 1..Len(c1.tab) |-> k],
                    LAMBDA k : c1.tab[k].ref /\ <<c1.tab[k].n, c1.tab[k].v>> \notin in)
      inRef(h) == LET k == Find(c1.tab, h) IN k # 0 /\ c1.tab[k].ref
      kept == SelectSeq(hs, inRef)
      new  == SelectSeq(hs, LAMBDA h : ~inRef(h))
      offs == [k \in 1..Len(removed) |-> [op |-> "idx", i |-> removed[k]-1]]
      c2 == FoldLeft(LAMBDA a, it : Apply(a, it, Cap), c1, offs)
      s3 == FoldLeft(LAMBDA a, h : EncodeOne(a, h), [c |-> c2, items |-> offs], new)
  IN ReEncode([c |-> s3.c, items |-> s3.items, fuel |-> Fuel], kept, Fuel)

Decode(c0, its) == EndFrame(FoldLeft(LAMBDA a, it : Apply(a, it, Cap), BeginFrame(c0), its))

\* header sets as ordered subsets of the universe
Orders == UNION { {s \in [1..m -> 1..Len(Universe)] : \A i, j \in 1..m : i # j => s[i] # s[j]} : m \in 0..MaxSet }
HdrSeq(o) == [k \in 1..Len(o) |-> Universe[o[k]]]

Init == /\ enc = [tab |-> InitTab(Static), out |-> <<>>]
        /\ dec = [tab |-> InitTab(Static), out |-> <<>>]
        /\ last = <<>> /\ hist = <<>> /\ rounds = 0 /\ items = <<>>

Send(o) ==
  LET hs == HdrSeq(o)
      e == Encode(enc, hs)
      d == Decode(dec, e.items)
  IN /\ Len(hist) < MaxDepth
     /\ enc' = [tab |-> e.c.tab, out |-> <<>>]
     /\ dec' = d
     /\ last' = hs /\ items' = e.items
     /\ rounds' = IF e.fuel = 0 THEN 99 ELSE Fuel - e.fuel
     /\ hist' = Append(hist, o)
     /\ IF Emit THEN PrintT("HIST " \o ToJson(Append(hist, o))) ELSE TRUE

Next == \E o \in Orders : Send(o)
Spec == Init /\ [][Next]_vars

View == <<[k \in 1..Len(enc.tab) |-> <<enc.tab[k].n, enc.tab[k].v, enc.tab[k].ref>>], Len(hist)>>

RoundTrip  == ToSet(dec.out) = ToSet(last)
InSync     == [k \in 1..Len(enc.tab) |-> <<enc.tab[k].n, enc.tab[k].v, enc.tab[k].ref>>]
            = [k \in 1..Len(dec.tab) |-> <<dec.tab[k].n, dec.tab[k].v, dec.tab[k].ref>>]
Bounded    == TabSize(enc.tab) <= Max2(Cap, TabSize(InitTab(Static)))
NoDup      == \A i, j \in 1..Len(enc.tab) : i # j =>
                 (enc.tab[i].n # enc.tab[j].n \/ enc.tab[i].v # enc.tab[j].v)
RefIsSubset == RefSet(enc) \subseteq ToSet(last)
Terminates == rounds < 99

\* checked on every transition (the VIEW hides what the properties observe)
StepRoundTrip  == [][RoundTrip']_vars
StepInSync     == [][InSync']_vars
StepTerminates == [][Terminates']_vars
StepRefSet     == [][RefIsSubset']_vars
\* headers that are all in the table are not spelled out; if they are just the
\* reference set, nothing is said
StepCheap      == [][(\A k \in 1..Len(last') : Find(enc.tab, last'[k]) # 0) => \A k \in 1..Len(items') : items'[k].op = "idx"]_vars
StepSilent     == [][RefSet(enc) = ToSet(last') => items' = <<>>]_vars
=============================================================================
