---------------------------- MODULE HarnessTrace ----------------------------
(* Conformance of the comparison tool.  A run is recorded as: the input (HAR   *)
(* entries, codec options), every construction and call of a codec, every      *)
(* mismatch, warning, summary and TSV file it produced.  The specification     *)
(* computes from the input which sessions there are and replays the run.       *)
EXTENDS Har, Streams, Http1, Json, IOUtils
CONSTANT Watch
VARIABLES l, ph, run, flat, at, inst, recs, mm, nsum, warned, tsvs, err, cov
vars == <<l, ph, run, flat, at, inst, recs, mm, nsum, warned, tsvs, err, cov>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Ev == Trace[l]

\* ---- codec options ---------------------------------------------------------
Unquote(s) == IF Len(s) >= 2 /\ s[1] = 34 /\ s[Len(s)] = 34 THEN SubSeq(s, 2, Len(s)-1) ELSE s
Module(o) == Before(o, {61})
Params(o) == IF 61 \in ToSet(o)
             THEN LET ps == SplitAt(Unquote(After(o, {61})), 44)
                  IN [i \in 1..Len(ps) |-> Trim(ps[i], WS)]
             ELSE <<>>
CodecName(o) == IF Params(o) = <<>> THEN Module(o)
                ELSE Module(o) \o <<32, 40>> \o Join(Params(o), <<44, 32>>) \o <<41>>
\* the codecs of a run in order, the baseline first if it was not named
Options(r) == IF r.baseline \in ToSet(r.codecs) THEN r.codecs ELSE <<r.baseline>> \o r.codecs
NC(r) == Len(Options(r))
Name(r, c) == CodecName(Options(r)[c])
IsStub(o) == Module(o) # <<104,116,116,112,49>>          \* all but http1
CodecOf(r, name) == LET C == {c \in 1..NC(r) : Name(r, c) = name} IN IF C = {} THEN 0 ELSE Min(C)

\* ---- sessions --------------------------------------------------------------
Value(d, n) == LET S == {p \in d : p[1] = n} IN IF S = {} THEN <<>> ELSE (CHOOSE p \in S : TRUE)[2]
Messages(es) == LET q == Requests(es) s == Responses(es)
                IN [i \in 1..Len(q) |-> [req |-> q[i], res |-> s[i], host |-> Value(q[i], sHost)]]
Sessions(r) == Concat([f \in 1..Len(r.files) |-> Streamify(r.streamifier, Messages(r.files[f]))])
Flat(ss) == Concat([s \in 1..Len(ss) |->
              [m \in 1..Len(ss[s].msgs) |-> [s |-> s, m |-> m, req |-> ss[s].req,
                                             d |-> ss[s].msgs[m].hdrs, host |-> ss[s].msgs[m].host]]])

HopByHop == {sStatusText, sVersion, sKeepAlive, sConnection}
Listed(d) == LET v == Value(d, sConnection) IN
             IF ~ \E p \in d : p[1] = sConnection THEN {}
             ELSE {Lower(Trim(x, {32})) : x \in ToSet(SplitAny(v, {44, 0}))}
Filter(d) == Without(d, HopByHop \cup Listed(d))
Ignored == {sVersion, sStatusText, sConnection}
NormSP(d) == UNION { { <<p[1], Trim(x, {32})>> : x \in ToSet(SplitAt(p[2], IF p[1] = sCookie THEN 59 ELSE 0)) }
                     : p \in Without(d, Ignored) }
ById(d) == Value(d, <<120, 45, 109>>)             \* the x-m header identifies a message

Http1Size(d) == Len(Format(SetToSeq(d), Default1))

\* ---- bookkeeping -----------------------------------------------------------
Init == /\ l = 1 /\ ph = "idle" /\ run = <<>> /\ flat = <<>> /\ at = <<>> /\ inst = <<>>
        /\ recs = <<>> /\ mm = <<>> /\ nsum = 0 /\ warned = <<>> /\ tsvs = 0 /\ err = <<>>
        /\ cov = [new |-> 0, insts |-> 0, comp |-> 0, mismatch |-> 0, agree |-> 0, none |-> 0,
                  sum |-> 0, total |-> 0, tsv |-> 0, warn |-> 0, exit |-> 0, skip |-> 0, filtered |-> 0]
Bump(fs) == cov' = [k \in DOMAIN cov |-> IF k \in fs THEN cov[k] + 1 ELSE cov[k]]
Fail(clause) ==
  IF clause \in Watch
  THEN /\ err' = <<clause, l>> /\ ph' = "dead"
       /\ UNCHANGED <<l, run, flat, at, inst, recs, mm, nsum, warned, tsvs, cov>>
  ELSE /\ ph' = "skip" /\ l' = l + 1 /\ Bump({"skip"})
       /\ UNCHANGED <<run, flat, at, inst, recs, mm, nsum, warned, tsvs, err>>
Is(e) == ph = "run" /\ l <= N /\ Ev.ev = e
Skip == /\ ph = "skip" /\ l <= N /\ Ev.ev # "new" /\ l' = l + 1
        /\ UNCHANGED <<ph, run, flat, at, inst, recs, mm, nsum, warned, tsvs, err, cov>>

New == /\ ph \in {"idle", "skip"} /\ l <= N /\ Ev.ev = "new"
       /\ LET ss == Sessions(Ev) IN
          /\ run' = [codecs |-> Ev.codecs, baseline |-> Ev.baseline, verbose |-> Ev.verbose,
                     debug |-> Ev.debug, tsv |-> Ev.tsv, ses |-> ss]
          /\ flat' = Flat(ss)
          /\ at' = [c \in 1..NC(Ev) |-> 0]
          /\ recs' = [c \in 1..NC(Ev) |-> <<>>]
          /\ mm' = [c \in 1..NC(Ev) |-> [want |-> FALSE, got |-> FALSE, a |-> {}, b |-> {}]]
       /\ inst' = <<>> /\ nsum' = 0 /\ warned' = <<>> /\ tsvs' = 0
       /\ l' = l + 1 /\ ph' = "run" /\ Bump({"new"}) /\ UNCHANGED err

Inst ==
  /\ Is("inst")
  /\ LET c == CodecOf(run, Ev.name) IN
     IF c = 0 THEN Fail("unknown-codec-instance")
     ELSE IF Ev.params # Params(Options(run)[c]) THEN Fail("codec-parameters")
     ELSE /\ inst' = Append(inst, [c |-> c, req |-> Ev.req, s |-> 0])
          /\ l' = l + 1 /\ Bump({"insts"})
          /\ UNCHANGED <<ph, run, flat, at, recs, mm, nsum, warned, tsvs, err>>

Settled(c) == mm[c].want = mm[c].got
Comp ==
  /\ Is("comp")
  /\ LET c == inst[Ev.i].c
         k == at[c] + 1
     IN IF ~Settled(c) THEN Fail("mismatch-not-reported")
        ELSE IF k > Len(flat) THEN Fail("message-not-in-any-session")
        ELSE
        LET m == flat[k]
            d == Dict(Ev.hdrs)
            s0 == inst[Ev.i].s
        IN IF ById(d) # ById(m.d) THEN Fail("message-order")
           ELSE IF inst[Ev.i].req # m.req THEN Fail("instance-of-the-wrong-direction")
           ELSE IF s0 \notin {0, m.s} THEN Fail("instance-shared-between-sessions")
           ELSE IF s0 = 0 /\ m.m # 1 THEN Fail("instance-replaced-within-session")
           ELSE IF Ev.host # m.host THEN Fail("host-argument")
           ELSE IF d # Filter(m.d) THEN Fail("headers-given-to-codec")
           ELSE /\ at' = [at EXCEPT ![c] = k]
                /\ inst' = [inst EXCEPT ![Ev.i].s = m.s]
                /\ recs' = [recs EXCEPT ![c] = Append(@, [size |-> Ev.size, time |-> Ev.time])]
                /\ mm' = [mm EXCEPT ![c] = [want |-> FALSE, got |-> FALSE, a |-> {}, b |-> {}]]
                /\ l' = l + 1 /\ Bump({"comp"} \cup (IF d # m.d THEN {"filtered"} ELSE {}))
                /\ UNCHANGED <<ph, run, flat, nsum, warned, tsvs, err>>

Dec ==
  /\ Is("dec")
  /\ LET c == inst[Ev.i].c
         a == NormSP(Filter(flat[at[c]].d))
         b == NormSP(Dict(Ev.hdrs))
     IN /\ mm' = IF Ev.none THEN mm
                 ELSE [mm EXCEPT ![c] = [want |-> a # b, got |-> FALSE, a |-> a \ b, b |-> b \ a]]
        /\ l' = l + 1 /\ Bump({IF Ev.none THEN "none" ELSE IF a # b THEN "mismatch" ELSE "agree"})
        /\ warned' = IF Ev.none THEN Append(warned, [c |-> c, w |-> FALSE]) ELSE warned
        /\ UNCHANGED <<ph, run, flat, at, inst, recs, nsum, tsvs, err>>

Mismatch ==
  /\ Is("mismatch")
  /\ LET c == CodecOf(run, Ev.name) IN
     IF c = 0 THEN Fail("mismatch-names-no-codec")
     ELSE IF ~mm[c].want \/ mm[c].got THEN Fail("mismatch-reported-wrongly")
     ELSE IF run.verbose > 1 /\ (~Ev.expl \/ ToSet(Ev.a) # mm[c].a \/ ToSet(Ev.b) # mm[c].b)
          THEN Fail("explanation-wrong")
     ELSE /\ mm' = [mm EXCEPT ![c].got = TRUE]
          /\ l' = l + 1 /\ UNCHANGED <<ph, run, flat, at, inst, recs, nsum, warned, tsvs, err, cov>>

Warn ==
  /\ Is("warn")
  /\ LET c == CodecOf(run, Ev.name)
         mine == {i \in 1..Len(warned) : warned[i].c = c}
     IN IF mine = {} \/ \E i \in mine : warned[i].w THEN Fail("warning")
        ELSE /\ warned' = [warned EXCEPT ![Min(mine)].w = TRUE]
             /\ l' = l + 1 /\ Bump({"warn"})
             /\ UNCHANGED <<ph, run, flat, at, inst, recs, mm, nsum, tsvs, err>>

\* ---- reports ---------------------------------------------------------------
\* the sizes of codec c for the messages whose flat index satisfies P
SizeAt(c, k) == IF IsStub(Options(run)[c]) THEN recs[c][k].size ELSE Http1Size(Filter(flat[k].d))
KnownTo(k) == \A c \in 1..NC(run) : IsStub(Options(run)[c]) => Len(recs[c]) >= k
Base == CodecOf(run, CodecName(run.baseline))
Pick(P(_)) == LET S == {k \in 1..Len(flat) : P(k)} IN SetToSortSeq(S, <)
Sizes(c, ks) == [i \in 1..Len(ks) |-> SizeAt(c, ks[i])]
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* k hundredths is size/base rounded
Rounds(k, size, base) == (2 * k - 1) * base <= 200 * size /\ 200 * size <= (2 * k + 1) * base
RowOk(row, c, ks) ==
  LET z == Sizes(c, ks)  b == Sizes(Base, ks)  n == Len(ks)
      R == [i \in 1..n |-> (200 * z[i] + b[i]) \div (2 * b[i])]     \* hundredths
      S == Sum(R)
      \* around the rounded mean m: (n-1) std^2 = Q - T^2/n, where T is at most n/2
      m == (2 * S + n) \div (2 * n)
      far == LET F == {IF R[i] > m THEN R[i] - m ELSE m - R[i] : i \in 1..n} IN CHOOSE x \in F : \A y \in F : y <= x
      fits == far < 40000 /\ n <= 2000000000 \div (far * far + 1) /\ row.std + 2 < 40000
              /\ n <= 2000000000 \div ((row.std + 2) * (row.std + 2))
      Q == Sum([i \in 1..n |-> (R[i] - m) * (R[i] - m)])
      T == Sum([i \in 1..n |-> R[i] - m])
      lo == Max2(row.std - 2, 0)
  IN IF row.proc # Name(run, c) THEN "summary-codec-order"
     ELSE IF row.size # Sum(z) THEN "summary-size"
     ELSE IF IsStub(Options(run)[c]) /\ row.time # Sum([i \in 1..n |-> recs[c][ks[i]].time]) THEN "summary-time"
     ELSE IF ~Rounds(row.ratio, Sum(z), Sum(b)) THEN "summary-ratio"
     ELSE IF ~((\A i \in 1..n : (2 * row.min - 1) * b[i] <= 200 * z[i])
               /\ (\E i \in 1..n : Rounds(row.min, z[i], b[i]))) THEN "summary-min"
     ELSE IF ~((\A i \in 1..n : 200 * z[i] <= (2 * row.max + 1) * b[i])
               /\ (\E i \in 1..n : Rounds(row.max, z[i], b[i]))) THEN "summary-max"
     ELSE IF n = 1 /\ row.std # 0 THEN "summary-std"
     ELSE IF n > 1 /\ fits /\
             ~(lo * lo * (n - 1) <= Q - (T * T) \div n /\ Q - (T * T) \div n - 1 <= (row.std + 2) * (row.std + 2) * (n - 1))
          THEN "summary-std"
     ELSE ""
SumOk(name, req, ks) ==
  IF Ev.name # name \/ Ev.req # req THEN "summary-of-another-stream"
  ELSE IF Ev.count # Len(ks) THEN "summary-count"
  ELSE IF \E i \in 1..Len(ks) : ~KnownTo(ks[i]) THEN "summary-before-the-end"
  ELSE IF Len(Ev.rows) # NC(run) THEN "summary-rows"
  ELSE LET bad == {c \in 1..NC(run) : RowOk(Ev.rows[c], c, ks) # ""}
       IN IF bad = {} THEN "" ELSE RowOk(Ev.rows[Min(bad)], Min(bad), ks)
Summary ==
  /\ Is("sum")
  /\ LET per == IF run.verbose > 0 THEN Len(run.ses) ELSE 0
         k == nsum + 1
         bad == IF k <= per
                THEN SumOk(run.ses[k].name, run.ses[k].req, Pick(LAMBDA i : flat[i].s = k))
                ELSE IF k > per + 2 THEN "summary-too-many"
                ELSE SumOk(sTotal, k = per + 1, Pick(LAMBDA i : flat[i].req = (k = per + 1)))
     IN IF bad # "" THEN Fail(bad)
        ELSE /\ nsum' = k /\ l' = l + 1 /\ Bump({IF k <= per THEN "sum" ELSE "total"})
             /\ UNCHANGED <<ph, run, flat, at, inst, recs, mm, warned, tsvs, err>>

Tsv ==
  /\ Is("tsv")
  /\ LET ks == Pick(LAMBDA i : flat[i].req = Ev.req)
         hdr == <<<<110,117,109>>, <<110,97,109,101>>>> \o [c \in 1..NC(run) |-> Name(run, c)]
         row(i) == [num |-> i, name |-> run.ses[flat[ks[i]].s].name,
                    sizes |-> [c \in 1..NC(run) |-> SizeAt(c, ks[i])]]
     IN IF ~run.tsv THEN Fail("tsv-not-asked-for")
        ELSE IF Ev.header # hdr THEN Fail("tsv-header")
        ELSE IF Len(Ev.rows) # Len(ks) \/ Ev.tail # <<>> THEN Fail("tsv-rows")
        ELSE IF \E i \in 1..Len(ks) : Ev.rows[i].num # i THEN Fail("tsv-numbering")
        ELSE IF \E i \in 1..Len(ks) : Ev.rows[i].name # row(i).name THEN Fail("tsv-names")
        ELSE IF \E i \in 1..Len(ks) : Ev.rows[i].sizes # row(i).sizes THEN Fail("tsv-sizes")
        ELSE /\ tsvs' = tsvs + 1 /\ l' = l + 1 /\ Bump({"tsv"})
             /\ UNCHANGED <<ph, run, flat, at, inst, recs, mm, nsum, warned, err>>

End ==
  /\ Is("end")
  /\ LET stubs == {c \in 1..NC(run) : IsStub(Options(run)[c])}
         hit == \E c \in stubs : mm[c].want
     IN IF Ev.exc = "raises" THEN Fail("run-raises")
        ELSE IF \E c \in stubs : ~Settled(c) THEN Fail("mismatch-not-reported")
        ELSE IF Ev.exc = "exit" /\ ~(run.debug /\ hit /\ Ev.code = 1) THEN Fail("run-exits")
        ELSE IF Ev.exc = "" /\ run.debug /\ hit THEN Fail("debug-does-not-stop")
        ELSE IF Ev.exc = "" /\ \E c \in stubs : at[c] # Len(flat) THEN Fail("messages-missing")
        ELSE IF Ev.exc = "" /\ nsum # 2 + (IF run.verbose > 0 THEN Len(run.ses) ELSE 0) THEN Fail("summaries-missing")
        ELSE IF Ev.exc = "" /\ run.tsv /\ tsvs # 2 THEN Fail("tsv-missing")
        ELSE IF \E i \in 1..Len(warned) : ~ \E j \in 1..Len(warned) : warned[j].c = warned[i].c /\ warned[j].w
             THEN Fail("warning")
        ELSE /\ ph' = "idle" /\ l' = l + 1 /\ Bump(IF Ev.exc = "exit" THEN {"exit"} ELSE {})
             /\ UNCHANGED <<run, flat, at, inst, recs, mm, nsum, warned, tsvs, err>>

Next == New \/ Skip \/ Inst \/ Comp \/ Dec \/ Mismatch \/ Warn \/ Summary \/ Tsv \/ End
Spec == Init /\ [][Next]_vars
Accepted == err = <<>>
Shown == [l |-> l, err |-> err]      \* what a counterexample prints of each state
Done == (l > N /\ ph \in {"idle", "skip"}) => PrintT("DONE " \o ToJson(cov))
=============================================================================
