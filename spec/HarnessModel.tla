---------------------------- MODULE HarnessModel ----------------------------
(* Design model of the comparison tool: messages are gathered from files, split *)
(* into streams, each stream is compressed message by message by fresh codec    *)
(* instances, results are recorded, and totals are folded over the streams.     *)
(* Message lists are heap objects, because adding two streams could share them. *)
EXTENDS Streams, Json
CONSTANTS Hosts,        \* host names (byte strings; some equal up to case)
          Kinds,        \* streamifiers
          MaxMsgs, Codecs,
          FreshPerSession,   \* design choice: new codec instances for each session
          CopyOnAdd,         \* design choice: stream addition copies the list
          Outcomes,          \* what decompression does: "same", "differ", "none"
          Emit
VARIABLES files, kind, phase, ses, heap, cur, ninst, owner, recs, totals
vars == <<files, kind, phase, ses, heap, cur, ninst, owner, recs, totals>>


Msg(h, id, o) == [req |-> {<<<<120>>, <<id>>>>}, res |-> {<<<<121>>, <<id>>>>}, host |-> h, o |-> o]
Count == SumOver(files, LAMBDA f : Len(f))

Init == /\ files = <<<<>>>> /\ kind = "" /\ phase = "input" /\ ses = <<>> /\ heap = <<>>
        /\ cur = [s |-> 1, m |-> 1] /\ ninst = 0 /\ owner = <<>> /\ recs = <<>> /\ totals = <<>>
AddMsg == /\ phase = "input" /\ Count < MaxMsgs
          /\ \E h \in Hosts, o \in Outcomes :
               files' = [files EXCEPT ![Len(files)] = Append(@, Msg(h, Count + 1, o))]
          /\ UNCHANGED <<kind, phase, ses, heap, cur, ninst, owner, recs, totals>>
NewFile == /\ phase = "input" /\ Len(files) < 2 /\ files[Len(files)] # <<>>
           /\ files' = Append(files, <<>>)
           /\ UNCHANGED <<kind, phase, ses, heap, cur, ninst, owner, recs, totals>>
Start ==
  /\ phase = "input" /\ Count > 0 /\ files[Len(files)] # <<>>
  /\ \E k \in Kinds :
       LET ss == Concat([f \in 1..Len(files) |-> Streamify(k, files[f])]) IN
       /\ kind' = k
       /\ heap' = [i \in 1..Len(ss) |-> ss[i].msgs]
       /\ ses' = [i \in 1..Len(ss) |-> [name |-> ss[i].name, req |-> ss[i].req, list |-> i]]
       /\ owner' = [c \in 1..Codecs |-> [i |-> c, seen |-> {}]]
       /\ ninst' = Codecs
       /\ recs' = [i \in 1..Len(ss) |-> [c \in 1..Codecs |-> <<>>]]
       /\ IF Emit THEN PrintT("HIST " \o ToJson([kind |-> k, files |->
              [f \in 1..Len(files) |-> [i \in 1..Len(files[f]) |-> [h |-> files[f][i].host, o |-> files[f][i].o]]]]))
          ELSE TRUE
  /\ phase' = "run" /\ cur' = [s |-> 1, m |-> 1] /\ UNCHANGED <<files, totals>>

\* one message through all codecs
Step ==
  /\ phase = "run" /\ cur.s <= Len(ses) /\ cur.m <= Len(heap[ses[cur.s].list])
  /\ LET first == cur.m = 1 /\ FreshPerSession
         own == [c \in 1..Codecs |-> IF first THEN [i |-> ninst + c, seen |-> {}] ELSE owner[c]]
     IN /\ ninst' = IF first THEN ninst + Codecs ELSE ninst
        /\ owner' = [c \in 1..Codecs |-> [own[c] EXCEPT !.seen = @ \cup {<<cur.s, cur.m>>}]]
  /\ recs' = [recs EXCEPT ![cur.s] = [c \in 1..Codecs |->
                Append(@[c], c * 10 + CHOOSE x \in {p[2][1] : p \in heap[ses[cur.s].list][cur.m].hdrs} : TRUE)]]
  /\ cur' = [cur EXCEPT !.m = @ + 1]
  /\ UNCHANGED <<files, kind, phase, ses, heap, totals>>
NextSession == /\ phase = "run" /\ cur.s <= Len(ses) /\ cur.m > Len(heap[ses[cur.s].list])
               /\ cur' = [s |-> cur.s + 1, m |-> 1]
               /\ UNCHANGED <<files, kind, phase, ses, heap, ninst, owner, recs, totals>>
\* fold the streams of both directions into totals
FoldDir(h, req) ==
  LET idx == SetToSortSeq({i \in 1..Len(ses) : ses[i].req = req}, <)
      add(a, i) ==
        IF CopyOnAdd THEN [h |-> a.h, msgs |-> a.msgs \o a.h[ses[i].list], at |-> a.at]
        ELSE LET hh == [a.h EXCEPT ![a.at] = @ \o a.h[ses[i].list]]
             IN [h |-> hh, msgs |-> hh[a.at], at |-> a.at]
  IN IF idx = <<>> THEN [h |-> h, msgs |-> <<>>]
     ELSE LET r == FoldLeft(add, [h |-> h, msgs |-> h[ses[idx[1]].list], at |-> ses[idx[1]].list], Tail(idx))
          IN [h |-> r.h, msgs |-> r.msgs]
Finish == /\ phase = "run" /\ cur.s > Len(ses)
          /\ LET q == FoldDir(heap, TRUE)  s == FoldDir(q.h, FALSE) IN
             /\ heap' = s.h /\ totals' = [req |-> Len(q.msgs), res |-> Len(s.msgs)]
          /\ phase' = "done" /\ UNCHANGED <<files, kind, ses, cur, ninst, owner, recs>>
Next == AddMsg \/ NewFile \/ Start \/ Step \/ NextSession \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- properties ------------------------------------------------------------
Bag2(s) == {<<x, Cardinality({i \in 1..Len(s) : s[i] = x})>> : x \in ToSet(s)}
AllIn == Concat(files)
Sent(req) == Concat([i \in 1..Len(ses) |-> IF ses[i].req = req THEN heap[ses[i].list] ELSE <<>>])
Partition == phase = "run" =>
  /\ Bag2([i \in 1..Len(AllIn) |-> AllIn[i].req]) = Bag2([i \in 1..Len(Sent(TRUE)) |-> Sent(TRUE)[i].hdrs])
  /\ Bag2([i \in 1..Len(AllIn) |-> AllIn[i].res]) = Bag2([i \in 1..Len(Sent(FALSE)) |-> Sent(FALSE)[i].hdrs])
Paired == phase = "run" => /\ Len(ses) % 2 = 0
  /\ \A k \in 1..(Len(ses) \div 2) : ses[2*k-1].req /\ ~ses[2*k].req /\ ses[2*k-1].name = ses[2*k].name
                                     /\ Len(heap[2*k-1]) = Len(heap[2*k])
Isolated == \A c \in 1..Len(owner) : \A x, y \in owner[c].seen : x[1] = y[1]
Accounted == phase = "done" =>
  \A i \in 1..Len(ses) : \A c \in 1..Codecs : Len(recs[i][c]) = Len(heap[ses[i].list])
Totals == phase = "done" => totals.req = Count /\ totals.res = Count
=============================================================================
