----------------------------- MODULE SimpleCodec -----------------------------
(* The "simple" codec: HTTP/1-like text with "\n" line ends, abbreviated or      *)
(* "!"-marked header names, and a "ref" line naming the headers whose value is   *)
(* that of the previous message.                                                 *)
EXTENDS Http1

\* abbreviation of a header name
Abbrev == <<
  <<<<120,45,99,111,110,116,101,110,116,45,116,121,112,101,45,111,112,116,105,111,110,115>>, <<120,99,116>>>>  (* x-content-type-options xct *),
  <<<<99,111,110,116,101,110,116,45,101,110,99,111,100,105,110,103>>, <<99,101>>>>  (* content-encoding ce *),
  <<<<97,99,99,101,115,115,45,99,111,110,116,114,111,108,45,97,108,108,111,119,45,111,114,105,103,105,110>>, <<97,99>>>>  (* access-control-allow-origin ac *),
  <<<<99,111,110,116,101,110,116,45,116,121,112,101>>, <<99,116>>>>  (* content-type ct *),
  <<<<97,99,99,101,112,116,45,108,97,110,103,117,97,103,101>>, <<97,108>>>>  (* accept-language al *),
  <<<<97,99,99,101,112,116,45,101,110,99,111,100,105,110,103>>, <<97,101>>>>  (* accept-encoding ae *),
  <<<<97,99,99,101,112,116,45,114,97,110,103,101,115>>, <<97,114>>>>  (* accept-ranges ar *),
  <<<<117,115,101,114,45,97,103,101,110,116>>, <<117,97>>>>  (* user-agent ua *),
  <<<<115,101,114,118,101,114>>, <<115>>>>  (* server s *),
  <<<<114,101,102,101,114,101,114>>, <<114>>>>  (* referer r *),
  <<<<97,99,99,101,112,116>>, <<97>>>>  (* accept a *),
  <<<<99,111,111,107,105,101>>, <<99>>>>  (* cookie c *),
  <<<<108,97,115,116,45,109,111,100,105,102,105,101,100>>, <<108,109>>>>  (* last-modified lm *),
  <<<<99,97,99,104,101,45,99,111,110,116,114,111,108>>, <<99,99>>>>  (* cache-control cc *),
  <<<<112,114,97,103,109,97>>, <<112>>>>  (* pragma p *),
  <<<<118,97,114,121>>, <<118>>>>  (* vary v *),
  <<<<100,97,116,101>>, <<100>>>>  (* date d *),
  <<<<101,120,112,105,114,101,115>>, <<120>>>>  (* expires x *),
  <<<<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>, <<99,108>>>>  (* content-length cl *),
  <<<<101,116,97,103>>, <<101>>>>  (* etag e *),
  <<<<99,111,110,116,101,110,116,45,108,97,110,103,117,97,103,101>>, <<108,97>>>>  (* content-language la *),
  <<<<118,105,97>>, <<118,105>>>>  (* via vi *),
  <<<<115,101,116,45,99,111,111,107,105,101>>, <<115,99>>>>  (* set-cookie sc *),
  <<<<112,51,112>>, <<112,51>>>>  (* p3p p3 *),
  <<<<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>, <<105,109,115>>>>  (* if-modified-since ims *),
  <<<<105,102,45,110,111,110,101,45,109,97,116,99,104>>, <<105,110,109>>>>  (* if-none-match inm *),
  <<<<58,104,111,115,116>>, <<104>>>>  (* :host h *) >>

sRef == <<114, 101, 102>>
Bang == 33
Short(n) == LET I == {i \in 1..Len(Abbrev) : Abbrev[i][1] = n}
            IN IF I = {} THEN <<Bang>> \o n ELSE Abbrev[CHOOSE i \in I : TRUE][2]
Known(a) == \E i \in 1..Len(Abbrev) : Abbrev[i][2] = a
Long(a)  == Abbrev[CHOOSE i \in 1..Len(Abbrev) : Abbrev[i][2] = a][1]
Ignored == {sStatusText, sVersion}

\* What a message means, given the previous one: m = [line : start line tokens,
\* fields : Seq(<<written name, value>>), refs : Seq(written name)]
ValidName(a) == a # <<>> /\ (a[1] \in {Bang, 58} \/ Known(a))
FullName(a)  == IF a[1] = Bang THEN Tail(a) ELSE IF a[1] = 58 THEN a ELSE Long(a)
FieldNames(m) == {FullName(m.fields[i][1]) : i \in 1..Len(m.fields)}
Instances(m, n) == LET s == SelectSeq(m.fields, LAMBDA f : FullName(f[1]) = n)
                   IN [i \in 1..Len(s) |-> s[i][2]]
RefNames(m) == [i \in 1..Len(m.refs) |-> FullName(m.refs[i])]

LegalMsg(m, prev, req) ==
  /\ \A i \in 1..Len(m.fields) : ValidName(m.fields[i][1])
  /\ \A i \in 1..Len(m.refs) : ValidName(m.refs[i]) /\ Has(prev, FullName(m.refs[i]))
  /\ Len(m.line) = 3

\* the header dictionary a message stands for
Meaning(m, prev, req) ==
  LET own == {<<n, Join(Instances(m, n), <<0>>)>> : n \in FieldNames(m)}
      ref == {<<n, Get(prev, n)>> : n \in ToSet(RefNames(m))}
      top == IF req THEN {<<sMethod, m.line[1]>>, <<sPath, m.line[2]>>} ELSE {<<sStatus, m.line[2]>>}
  IN SetToSeq(own \cup ref \cup top)

\* reading the text
TrimW(s) == Trim(s, WS)
FieldOf(ln) == LET k == IF ln[1] = 58 THEN IndexIn(Tail(ln), {58}) + 1 ELSE IndexIn(ln, {58})
               IN IF k <= 1 THEN <<<<>>, <<>>>> ELSE <<SubSeq(ln, 1, k - 1), TrimW(Rest(ln, k + 1))>>
Words3(s) ==     \* split at blanks, at most three pieces
  LET a == TrimW(s)
      w1 == Before(a, {32})  r1 == TrimW(From(a, {32}))
      w2 == Before(r1, {32}) r2 == TrimW(From(r1, {32}))
  IN IF r1 = <<>> THEN <<w1>> ELSE IF r2 = <<>> THEN <<w1, w2>> ELSE <<w1, w2, r2>>
Read(text) ==
  LET ls == SplitAt(TrimW(text), 10)
      body == [i \in 1..(Len(ls) - 1) |-> IF ls[i+1] = <<>> THEN <<<<>>, <<>>>> ELSE FieldOf(ls[i+1])]
      refs == SelectSeq(body, LAMBDA f : f[1] = sRef)
  IN [line |-> Words3(ls[1]),
      fields |-> SelectSeq(body, LAMBDA f : f[1] # sRef),
      refs |-> IF refs = <<>> THEN <<>> ELSE SplitAt(refs[1][2], 44),
      reflines |-> Len(refs)]

\* seven bits per character, most significant first, padded with zeros to a byte
Unseven(bytes) ==
  LET bit(p) == (bytes[((p - 1) \div 8) + 1] \div 2^(7 - ((p - 1) % 8))) % 2
      n == (8 * Len(bytes)) \div 7
      chars == [k \in 1..n |-> FoldLeft(LAMBDA a, j : 2 * a + bit(7 * (k-1) + j), 0, <<1, 2, 3, 4, 5, 6, 7>>)]
  IN IF n > 0 /\ chars[n] = 0 THEN SubSeq(chars, 1, n - 1) ELSE chars

\* the headers of a message that the codec is required to carry
Carried(hs) == Norm(Drop(hs, Ignored))
=============================================================================
