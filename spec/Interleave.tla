------------------------------ MODULE Interleave ------------------------------
(* Several instances of stateful codecs in one process.  A compressor's context *)
(* is the sequence of messages it was given; a frame means its message only to  *)
(* a decompressor with the same context before it.  Instances are made and      *)
(* called in any order; a decoder may lag behind, and may be an instance of its *)
(* own (Src).  Prints every complete schedule.                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Src,           \* for each instance, whose frames it decodes
          Calls,         \* messages per instance
          Emit
VARIABLES made, enc, dec, hist
vars == <<made, enc, dec, hist>>
I == 1..Len(Src)
Own(i) == Src[i] = i
Init == made = {} /\ enc = [i \in I |-> <<>>] /\ dec = [i \in I |-> <<>>] /\ hist = <<>>
Log(op, i) == hist' = Append(hist, <<op, i>>)
New(i) == i \notin made /\ made' = made \cup {i} /\ Log("n", i) /\ UNCHANGED <<enc, dec>>
Compress(i) == /\ i \in made /\ Own(i) /\ Len(enc[i]) < Calls
               /\ enc' = [enc EXCEPT ![i] = Append(@, <<i, Len(@) + 1>>)] /\ Log("c", i) /\ UNCHANGED <<made, dec>>
\* the k-th frame of a stream: its context is the k-1 messages before it
Decode(i) == /\ i \in made /\ Len(dec[i]) < Len(enc[Src[i]])
             /\ LET k == Len(dec[i]) + 1
                    frame == [ctx |-> SubSeq(enc[Src[i]], 1, k - 1), msg |-> enc[Src[i]][k]]
                IN dec' = [dec EXCEPT ![i] = Append(@, IF @ = frame.ctx THEN frame.msg ELSE <<0, 0>>)]
             /\ Log("d", i) /\ UNCHANGED <<made, enc>>
Complete == made = I /\ \A i \in I : (Own(i) => Len(enc[i]) = Calls) /\ Len(dec[i]) = Calls
Next == \E i \in I : New(i) \/ Compress(i) \/ Decode(i)
Spec == Init /\ [][Next]_vars
Recovered == \A i \in I : dec[i] = SubSeq(enc[Src[i]], 1, Len(dec[i]))
Alone == \A i \in I : Own(i) => enc[i] = [k \in 1..Len(enc[i]) |-> <<i, k>>]
Hist == (Emit /\ Complete) => PrintT("HIST " \o ToJson(hist))
=============================================================================
