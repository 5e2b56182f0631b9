----------------------------- MODULE SimpleTrace -----------------------------
(* Conformance of the real "simple" codec: every recorded output is read as      *)
(* text and expanded with the previous message of the specification's own        *)
(* history.                                                                      *)
EXTENDS SimpleCodec, Json, IOUtils
CONSTANT Watch
D == INSTANCE HttpDate
VARIABLES l, ph, prev, last, par, err, cov    \* prev as decoded, last as sent
vars == <<l, ph, prev, last, par, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]

Init == /\ l = 1 /\ ph = "idle" /\ prev = <<>> /\ last = <<>> /\ par = [req |-> TRUE, max |-> -1, seven |-> FALSE, date |-> FALSE] /\ err = <<>>
        /\ cov = [new |-> 0, frame |-> 0, refs |-> 0, capped |-> 0, seven |-> 0, dates |-> 0, undated |-> 0, skip |-> 0]
Fail(clause) ==
  IF clause \in Watch
  THEN /\ err' = <<clause, l>> /\ ph' = "dead" /\ UNCHANGED <<l, prev, last, par, cov>>
  ELSE /\ ph' = "skip" /\ l' = l + 1 /\ cov' = [cov EXCEPT !.skip = @ + 1] /\ UNCHANGED <<prev, last, par, err>>

New == /\ ph \in {"idle", "skip"} /\ l <= N /\ Ev.ev = "new"
       /\ IF Ev.exc # "" THEN Fail("constructor-" \o Ev.exc)
          ELSE /\ par' = [req |-> Ev.req, max |-> Ev.max, seven |-> Ev.seven, date |-> Ev.date] /\ prev' = <<>> /\ last' = <<>>
               /\ l' = l + 1 /\ ph' = "idle" /\ cov' = [cov EXCEPT !.new = @ + 1] /\ UNCHANGED err
Skip == /\ ph = "skip" /\ l <= N /\ Ev.ev # "new" /\ l' = l + 1 /\ UNCHANGED <<ph, prev, last, par, err, cov>>

(* With "date" a legal HTTP date is sent as the moment it names, in hexadecimal  *)
(* seconds since 1970, and comes back in the preferred form; any other value of  *)
(* a date header is sent as text, set off by "!" where it could be taken for a   *)
(* number.                                                                       *)
DateHdrs == {D!sDate, D!sExpires, <<108,97,115,116,45,109,111,100,105,102,105,101,100>>,
             <<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>}
Legal(h) == h[1] \in DateHdrs /\ D!Moment(h[2]).ok
Due(hs)  == IF ~par.date THEN hs
            ELSE [i \in 1..Len(hs) |-> IF Legal(hs[i]) THEN <<hs[i][1], D!Preferred(D!Moment(hs[i][2]))>> ELSE hs[i]]
Told(n, v) == IF ~par.date \/ n \notin DateHdrs \/ v = <<>> THEN v
              ELSE IF v[1] = Bang THEN Tail(v) ELSE IF D!IsStamp(v) THEN D!Preferred(D!HexMoment(v)) ELSE v
MeaningNow(m) ==
  LET own == {<<n, Told(n, Join(Instances(m, n), <<0>>))>> : n \in FieldNames(m)}
      ref == {<<n, Get(prev, n)>> : n \in ToSet(RefNames(m))}
      top == IF par.req THEN {<<sMethod, m.line[1]>>, <<sPath, m.line[2]>>} ELSE {<<sStatus, m.line[2]>>}
  IN IF par.date THEN SetToSeq(own \cup ref \cup top) ELSE Meaning(m, prev, par.req)
Sent(m) == {i \in 1..Len(Ev.hdrs) : Legal(Ev.hdrs[i]) /\ Ev.hdrs[i][1] \in FieldNames(m)}
Packed(m) == \A i \in Sent(m) :
  LET v == Join(Instances(m, Ev.hdrs[i][1]), <<0>>)  mo == D!Moment(Ev.hdrs[i][2])
  IN D!IsStamp(v) /\ D!HexMoment(v) = mo

\* the headers that have the value they had in the message before
Again == {h \in ToSet(Ev.hdrs) : h \in ToSet(last) /\ (h[1][1] # 58 \/ h[1] = sHost)}

Frame ==
  /\ ph = "idle" /\ l <= N /\ Ev.ev = "frame"
  /\ IF Ev.exc # "" THEN Fail("compress-" \o Ev.exc)
     ELSE IF Ev.dexc # "" THEN Fail("decompress-" \o Ev.dexc)
     ELSE IF Ev.mut THEN Fail("input-changed")
     ELSE IF Carried(Ev.dec) # Carried(Due(Ev.hdrs)) THEN Fail("decoded-differs")
     ELSE LET m == Read(IF par.seven THEN Unseven(Ev.frame) ELSE Ev.frame) IN
          IF m.reflines > 1 \/ ~LegalMsg(m, prev, par.req) THEN Fail("text-not-legal")
          ELSE IF par.max >= 0 /\ Len(m.refs) > par.max THEN Fail("too-many-references")
          ELSE IF Len(m.refs) < (IF par.max < 0 THEN Cardinality(Again) ELSE Min2(par.max, Cardinality(Again)))
          THEN Fail("repeat-not-referenced")
          ELSE IF par.date /\ ~Packed(m) THEN Fail("date-not-packed")
          ELSE LET got == MeaningNow(m) IN
               IF Carried(got) # Carried(Due(Ev.hdrs)) THEN Fail("text-means-other-headers")
               ELSE /\ prev' = got /\ last' = Ev.hdrs /\ l' = l + 1
                    /\ cov' = [cov EXCEPT !.frame = @ + 1, !.refs = @ + Len(m.refs),
                                 !.capped = @ + (IF par.max >= 0 /\ Len(m.refs) = par.max THEN 1 ELSE 0),
                                 !.dates = @ + (IF par.date THEN Cardinality(Sent(m)) ELSE 0),
                                 !.undated = @ + (IF par.date THEN Cardinality({i \in 1..Len(Ev.hdrs) :
                                                     Ev.hdrs[i][1] \in DateHdrs /\ ~Legal(Ev.hdrs[i])}) ELSE 0),
                                 !.seven = @ + (IF par.seven THEN 1 ELSE 0)]
                    /\ UNCHANGED <<ph, par, err>>
Next == New \/ Skip \/ Frame
Spec == Init /\ [][Next]_vars
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
Done == (l > N /\ ph \in {"idle", "skip"}) => PrintT("DONE " \o ToJson(cov))
=============================================================================
