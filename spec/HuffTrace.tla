-------------------------------- MODULE HuffTrace --------------------------------
(* Conformance of the real Huffman coders.                                        *)
(*  new  : Ev.freqs, Ev.codes[i] = <<number of bits, bytes>> as observed by       *)
(*         encoding each symbol alone; Ev.canon, Ev.limit (longest code allowed,  *)
(*         0 for none), Ev.opt : the weights are small enough to add up here      *)
(*  text : Ev.text encoded (Ev.bits, Ev.enc), with the end symbol if Ev.eof,      *)
(*         stored between Ev.pre and Ev.post other bits, and decoded (Ev.dec)     *)
(*         with a bit count Ev.count (0: none); Ev.used bits were consumed        *)
(*         (-1: not claimed)                                                      *)
EXTENDS HuffCode, Json, IOUtils
VARIABLES l, codes, err, cov
vars == <<l, codes, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
Init == l = 1 /\ codes = <<>> /\ err = <<>> /\ cov = [new |-> 0, optimal |-> 0, text |-> 0, eof |-> 0, counted |-> 0, offset |-> 0]
Bump(fs) == cov' = [k \in DOMAIN cov |-> IF k \in fs THEN cov[k] + 1 ELSE cov[k]]
Fail(clause) == err' = <<clause, l>> /\ UNCHANGED <<l, codes, cov>>
New == /\ err = <<>> /\ l <= N /\ Ev.ev = "new"
       /\ IF Ev.exc # "" THEN Fail("no-code-built")
          ELSE LET cs == [i \in 1..Len(Ev.codes) |-> Unpack(Ev.codes[i][2], Ev.codes[i][1])]
                   lens == [i \in 1..Len(cs) |-> Len(cs[i])]
               IN IF Len(cs) # Len(Ev.freqs) \/ ~IsCode(cs) THEN Fail("not-a-complete-prefix-code")
                  ELSE IF \E i \in 1..Len(cs) : Pack(cs[i]) # Ev.codes[i][2] THEN Fail("rubbish-after-code")
                  ELSE IF Ev.canon /\ ~IsCanonical(cs) THEN Fail("not-canonical")
                  ELSE IF Ev.limit > 0 /\ \E i \in 1..Len(cs) : Len(cs[i]) > Ev.limit THEN Fail("code-too-long")
                  ELSE IF Ev.opt /\ CostOf(Ev.freqs, cs) # Best(Ev.freqs) THEN Fail("not-optimal")
                  ELSE /\ codes' = cs /\ l' = l + 1 /\ Bump({"new"} \cup (IF Ev.opt THEN {"optimal"} ELSE {})) /\ UNCHANGED err
Want == Code(codes, Ev.text) \o (IF Ev.eof THEN codes[257] ELSE <<>>)
Text == /\ err = <<>> /\ l <= N /\ Ev.ev = "text"
        /\ IF Ev.exc # "" THEN Fail("coding-fails")
           ELSE IF Ev.bits # Len(Want) \/ Ev.enc # Pack(Want) THEN Fail("encoding-is-not-the-code-words")
           ELSE IF Ev.dec # Ev.text THEN Fail("decoding-differs")
           ELSE IF Ev.used # -1 /\ Ev.used # (IF Ev.count > 0 THEN Ev.count ELSE Len(Want)) THEN Fail("wrong-number-of-bits-consumed")
           ELSE /\ l' = l + 1
                /\ Bump({"text"} \cup (IF Ev.eof THEN {"eof"} ELSE {}) \cup (IF Ev.count > 0 THEN {"counted"} ELSE {})
                        \cup (IF Ev.pre % 8 # 0 THEN {"offset"} ELSE {}))
                /\ UNCHANGED <<codes, err>>
Next == New \/ Text
Spec == Init /\ [][Next]_vars
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
Done == l > N => PrintT("DONE " \o ToJson(cov))
=============================================================================
