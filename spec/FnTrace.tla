------------------------------- MODULE FnTrace -------------------------------
(* Conformance of the input side of the tool, one public call per event:       *)
(*   har     read_har_file / har2hdrs                                          *)
(*   stream  Streamifier.streamify                                             *)
(*   http1   format_http1 / parse_http1, directly and through the http1 codec  *)
EXTENDS Har, Streams, Http1, Json, IOUtils
CONSTANT Watch
VARIABLES l, err, cov
vars == <<l, err, cov>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]
Init == l = 1 /\ err = <<>>
        /\ cov = [new |-> 0, har |-> 0, entries |-> 0, skipped |-> 0, badfile |-> 0, stream |-> 0,
                  streams |-> 0, http1 |-> 0, req |-> 0, res |-> 0, multi |-> 0, skip |-> 0]

HarVerdict ==
  IF Ev.malformed THEN (IF Ev.exc = "exit" /\ Ev.code # 0 /\ Ev.said THEN "" ELSE "har-unreadable-file")
  ELSE IF Ev.exc # "" THEN "har-raises"
  ELSE IF Len(Ev.reqs) # Len(Kept(Ev.entries)) \/ Len(Ev.ress) # Len(Kept(Ev.entries)) THEN "har-entry-count"
  ELSE IF [i \in 1..Len(Ev.reqs) |-> ToSet(Ev.reqs[i])] # Requests(Ev.entries) THEN "har-request-headers"
  ELSE IF [i \in 1..Len(Ev.ress) |-> ToSet(Ev.ress[i])] # Responses(Ev.entries) THEN "har-response-headers"
  ELSE ""

InMsgs == [i \in 1..Len(Ev.msgs) |->
   [req |-> ToSet(Ev.msgs[i].req), res |-> ToSet(Ev.msgs[i].res), host |-> Get(Ev.msgs[i].req, sHost)]]
Got == [s \in 1..Len(Ev.streams) |-> [name |-> Ev.streams[s].name, req |-> Ev.streams[s].req,
          msgs |-> [m \in 1..Len(Ev.streams[s].msgs) |->
             [hdrs |-> ToSet(Ev.streams[s].msgs[m].hdrs), host |-> Ev.streams[s].msgs[m].host]]]]
Bodies(ss, req) == Concat([s \in 1..Len(ss) |-> IF ss[s].req = req THEN [m \in 1..Len(ss[s].msgs) |-> ss[s].msgs[m].hdrs] ELSE <<>>])
StreamVerdict ==
  LET want == Streamify(Ev.kind, InMsgs) IN
  IF Ev.exc # "" THEN "stream-raises"
  ELSE IF Ev.mut THEN "stream-changes-messages"
  ELSE IF Bag(Bodies(Got, TRUE)) # Bag([i \in 1..Len(InMsgs) |-> InMsgs[i].req])
       \/ Bag(Bodies(Got, FALSE)) # Bag([i \in 1..Len(InMsgs) |-> InMsgs[i].res]) THEN "stream-loses-messages"
  ELSE IF Len(Got) # Len(want) THEN "stream-count"
  ELSE IF \E s \in 1..Len(want) : Got[s].req # want[s].req THEN "stream-direction"
  ELSE IF \E s \in 1..Len(want) : Got[s].msgs # want[s].msgs
       THEN (IF \E s \in 1..Len(want) : Bag(Got[s].msgs) = Bag(want[s].msgs) /\ Got[s].msgs # want[s].msgs
             THEN "stream-message-order" ELSE "stream-members")
  ELSE IF \E s \in 1..Len(want) : Got[s].name # want[s].name THEN "stream-name"
  ELSE ""

Settings == [delim |-> Ev.st.delim, valsep |-> Ev.st.valsep, host |-> Ev.st.host, version |-> Ev.st.version]
Http1Verdict ==
  IF Ev.exc # "" THEN "format-raises"
  ELSE IF Ev.mut THEN "format-changes-input"
  ELSE LET v == TextVerdict(Ev.text, Ev.hdrs, Settings, ToSet(Ev.multi)) IN
       IF v # "" THEN v
       ELSE IF Ev.dexc # "" THEN "parse-raises"
       ELSE IF ToSet(Ev.parsed) # Parsed(Ev.hdrs, Settings) THEN "parsed-differs"
       ELSE ""

Verdict == CASE Ev.ev = "new" -> ""
             [] Ev.ev = "har" -> HarVerdict
             [] Ev.ev = "stream" -> StreamVerdict
             [] Ev.ev = "http1" -> Http1Verdict
Plus(k, n) == cov' = [x \in DOMAIN cov |-> cov[x] + (IF x = k THEN n ELSE 0)]
Count ==
  cov' = [x \in DOMAIN cov |-> cov[x] +
    (IF x = Ev.ev THEN 1
     ELSE IF Ev.ev = "har" /\ x = "entries" THEN Len(Ev.entries)
     ELSE IF Ev.ev = "har" /\ x = "skipped" THEN Len(Ev.entries) - Len(Kept(Ev.entries))
     ELSE IF Ev.ev = "har" /\ x = "badfile" /\ Ev.malformed THEN 1
     ELSE IF Ev.ev = "stream" /\ x = "streams" THEN Len(Ev.streams)
     ELSE IF Ev.ev = "http1" /\ x = (IF IsRequest(Ev.hdrs) THEN "req" ELSE "res") THEN 1
     ELSE IF Ev.ev = "http1" /\ x = "multi" THEN Len(Ev.multi)
     ELSE 0)]
Step == /\ l <= N /\ err = <<>>
        /\ LET v == Verdict IN
           IF v \in Watch THEN err' = <<v, l>> /\ UNCHANGED <<l, cov>>
           ELSE IF v = "" THEN l' = l + 1 /\ Count /\ UNCHANGED err
           ELSE l' = l + 1 /\ Plus("skip", 1) /\ UNCHANGED err
Spec == Init /\ [][Step]_vars
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
Done == l > N => PrintT("DONE " \o ToJson(cov))
=============================================================================
