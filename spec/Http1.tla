-------------------------------- MODULE Http1 --------------------------------
(* The HTTP/1 text form of a header dictionary (a sequence of <<name, value>>  *)
(* pairs in dictionary order).                                                 *)
EXTENDS Text, Lits

\* settings: [delim, valsep, host, version]
Default1 == [delim |-> sCRLF, valsep |-> sColonSp, host |-> sHostName, version |-> sHttp11]
GetOr(hs, n, d) == IF Has(hs, n) THEN Get(hs, n) ELSE d
IsRequest(hs) == Has(hs, sMethod)
StartNames(hs) == IF IsRequest(hs) THEN {sMethod, sPath, sVersion} ELSE {sVersion, sStatus, sStatusText}
StartLine(hs, st) ==
  IF IsRequest(hs)
  THEN Get(hs, sMethod) \o <<32>> \o GetOr(hs, sPath, <<>>) \o <<32>> \o GetOr(hs, sVersion, st.version)
  ELSE GetOr(hs, sVersion, st.version) \o <<32>> \o GetOr(hs, sStatus, <<>>) \o <<32>> \o GetOr(hs, sStatusText, sQuest)
Lines(hs, st) ==       \* the field lines, one per instance, in dictionary order
  LET fields == SelectSeq(hs, LAMBDA h : h[1] \notin StartNames(hs))
      one(h) == LET nm == IF h[1] = sHost THEN st.host ELSE h[1]
                    vs == SplitAt(h[2], 0)
                IN [i \in 1..Len(vs) |-> nm \o st.valsep \o vs[i]]
  IN Concat([i \in 1..Len(fields) |-> one(fields[i])])
Format(hs, st) ==
  StartLine(hs, st) \o st.delim
  \o Concat([i \in 1..Len(Lines(hs, st)) |-> Lines(hs, st)[i] \o st.delim]) \o st.delim

\* the lines of a text that ends with an empty line; <<>> if it does not
RECURSIVE CutAt(_, _)
CutAt(t, d) ==      \* split at the delimiter string d
  LET P == {i \in 1..(Len(t) - Len(d) + 1) : SubSeq(t, i, i + Len(d) - 1) = d}
  IN IF P = {} THEN <<t>>
     ELSE <<SubSeq(t, 1, Min(P) - 1)>> \o CutAt(Rest(t, Min(P) + Len(d)), d)

\* multiset of a sequence as a set of <<element, count>>
Bag(s) == {<<x, Cardinality({i \in 1..Len(s) : s[i] = x})>> : x \in ToSet(s)}

Before2(line) == IF line = <<>> THEN <<>> ELSE <<line[1]>> \o Before(Tail(line), {58})
\* "" or what is wrong with a text for the headers hs (multi: the names of repeated fields)
TextVerdict(text, hs, st, multi) ==
  LET ls == CutAt(text, st.delim)
      n == Len(ls)
      body == SubSeq(ls, 2, n - 2)
      want == Lines(hs, st)
  IN IF n < 3 \/ ls[n] # <<>> \/ ls[n-1] # <<>> THEN "text-not-terminated"
     ELSE IF ls[1] # StartLine(hs, st) THEN "start-line"
     ELSE IF Bag(body) # Bag(want) THEN "field-lines"
     ELSE IF \E nm \in multi :       \* instances of one field keep their order
               SelectSeq(body, LAMBDA x : Before2(x) = nm) # SelectSeq(want, LAMBDA x : Before2(x) = nm)
          THEN "field-order"
     ELSE ""
\* the bytes of a text
Utf8C(c) == IF c < 128 THEN <<c>>
            ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
            ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == IF \A i \in 1..Len(s) : s[i] < 128 THEN s ELSE FlattenSeq([i \in 1..Len(s) |-> Utf8C(s[i])])
Utf8Headers(hs) == [i \in 1..Len(hs) |-> <<Utf8(hs[i][1]), Utf8(hs[i][2])>>]

\* what parsing must give back
TrimVals(v) == LET p == SplitAt(v, 0) IN Join([i \in 1..Len(p) |-> Trim(p[i], WS)], <<0>>)
Parsed(hs, st) ==
  LET core == {<<p[1], TrimVals(p[2])>> : p \in Dict(SelectSeq(hs, LAMBDA h : h[1] \notin StartNames(hs)))}
  IN IF IsRequest(hs)
     THEN core \cup {<<sMethod, Get(hs, sMethod)>>, <<sPath, GetOr(hs, sPath, <<>>)>>,
                     <<sVersion, GetOr(hs, sVersion, st.version)>>}
     ELSE core \cup {<<sStatus, GetOr(hs, sStatus, <<>>)>>, <<sVersion, GetOr(hs, sVersion, st.version)>>,
                     <<sStatusText, Trim(GetOr(hs, sStatusText, sQuest), WS)>>}
=============================================================================
