-------------------------------- MODULE BitTrace --------------------------------
(* Conformance of the real BitBuckets: every recorded call with its result and    *)
(* the counts asked for after it.                                                 *)
(*  Ev.n : bits asked for, Ev.b : the argument's bytes, Ev.got : the bytes of the *)
(*  answer (numbers as 4 bytes), Ev.num/rem/done : NumBits, BitsRemaining and     *)
(*  AllConsumed after the call, Ev.cap : bytes of storage                         *)
EXTENDS BitFifo, TLC, Json, IOUtils
VARIABLES l, q, err, cov
vars == <<l, q, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
Init == l = 1 /\ q = Empty /\ err = <<>> /\ cov = [new |-> 0, stores |-> 0, reads |-> 0, refused |-> 0, other |-> 0]
Bump(f) == cov' = [cov EXCEPT ![f] = @ + 1]
Fail(clause) == err' = <<clause, l>> /\ UNCHANGED <<l, q, cov>>
New == /\ err = <<>> /\ l <= N /\ Ev.ev = "new" /\ q' = Empty /\ l' = l + 1 /\ Bump("new") /\ UNCHANGED err

Bytes32(bits) == Pack(Zeros(32 - Len(bits)) \o bits)
Kind == CASE Ev.ev \in {"store", "s1", "s4", "s8", "s16", "s22", "s32", "bytes", "abytes", "a8", "a16", "a32", "pad"} -> "stores"
          [] Ev.ev \in {"get", "g1", "g4", "g8", "g16", "g32", "peek"} -> "reads"
          [] Ev.ev = "over" -> "refused" [] OTHER -> "other"
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* [q : the queue after the call, got : the answer]
Eff == CASE Ev.ev = "store" -> [q |-> Put(q, Unpack(Ev.b, Ev.n)), got |-> <<>>]
         [] Ev.ev \in {"s1", "s4", "s8", "s16", "s22", "s32"} -> [q |-> Put(q, Low(Ev.b, Ev.n)), got |-> <<>>]
         [] Ev.ev = "bytes" -> [q |-> Put(q, Unpack(Ev.b, 8 * Len(Ev.b))), got |-> <<>>]
         [] Ev.ev = "abytes" -> [q |-> Put(Pad(q), Unpack(Ev.b, 8 * Len(Ev.b))), got |-> <<>>]
         \* byte-aligned numbers are stored in the byte order of the host
         [] Ev.ev \in {"a8", "a16", "a32"} -> [q |-> Put(Pad(q), Unpack(Rev(Ev.b), 8 * Len(Ev.b))), got |-> <<>>]
         [] Ev.ev = "pad" -> [q |-> Pad(q), got |-> <<>>]
         [] Ev.ev = "get" -> [q |-> Skip(q, Ev.n), got |-> Pack(Peek(q, Ev.n))]
         [] Ev.ev \in {"g1", "g4", "g8", "g16", "g32"} -> [q |-> Skip(q, Ev.n), got |-> Bytes32(Peek(q, Ev.n))]
         \* shift n bits into a word that holds Ev.b, without consuming them
         [] Ev.ev = "peek" -> [q |-> q, got |-> Pack(SubSeq(Unpack(Ev.b, 32), Ev.n + 1, 32) \o Peek(q, Ev.n))]
         [] Ev.ev = "consume" -> [q |-> Skip(q, Ev.n), got |-> <<>>]
         [] Ev.ev = "seek" -> [q |-> [q EXCEPT !.rd = Ev.n], got |-> <<>>]
         [] Ev.ev = "align" -> [q |-> AlignRead(q), got |-> <<>>]
         [] Ev.ev = "clear" -> [q |-> Empty, got |-> <<>>]
         [] Ev.ev = "all" -> [q |-> q, got |-> Pack(q.bits)]
         [] Ev.ev = "over" -> [q |-> q, got |-> <<>>]
Op == /\ err = <<>> /\ l <= N /\ Ev.ev # "new"
      /\ LET e == Eff IN
         IF Ev.ev = "over" /\ ~Ev.refused THEN Fail("read-beyond-the-end-not-refused")
         ELSE IF Ev.exc # "" THEN Fail("operation-fails")
         ELSE IF Ev.got # e.got THEN Fail(IF Ev.ev = "all" THEN "contents-differ" ELSE "bits-differ")
         ELSE IF Ev.num # Len(e.q.bits) THEN Fail("stored-count-differs")
         ELSE IF Ev.rem # Left(e.q) THEN Fail("remaining-count-differs")
         ELSE IF Ev.done # (Left(e.q) = 0) THEN Fail("all-consumed-differs")
         ELSE IF Ev.cap # (Len(e.q.bits) + 7) \div 8 THEN Fail("storage-count-differs")
         ELSE q' = e.q /\ l' = l + 1 /\ Bump(Kind) /\ UNCHANGED err
Next == New \/ Op
Spec == Init /\ [][Next]_vars
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
Sound == q.rd <= Len(q.bits)
Done == l > N => PrintT("DONE " \o ToJson(cov))
=============================================================================
