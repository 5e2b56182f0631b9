--------------------------------- MODULE Bohe ---------------------------------
(* "Binary optimised header encoding": what the typed encodings of header      *)
(* values denote.  Every operator X of the form Want.. gives the meaning of a   *)
(* value as text, every Read.. the meaning of an encoded value; an encoding is  *)
(* right when the two agree.                                                   *)
EXTENDS Text

(* Numbers of any size are sequences of digits to the base 128, least           *)
(* significant first, without zeros at the end: <<>> is 0.                     *)
RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN <<>> ELSE <<c % 128>> \o Carry(c \div 128)
MulAdd(num, m, a) ==
  LET r == FoldLeft(LAMBDA s, d : [out |-> Append(s.out, (d * m + s.c) % 128), c |-> (d * m + s.c) \div 128],
                    [out |-> <<>>, c |-> a], num)
  IN r.out \o Carry(r.c)
RECURSIVE Canon(_)
Canon(num) == IF num = <<>> THEN num ELSE IF num[Len(num)] = 0 THEN Canon(SubSeq(num, 1, Len(num) - 1)) ELSE num
Num(n) == Canon(Carry(n))

Digits == 48..57
IsDec(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] \in Digits
DecNum(s) == Canon(FoldLeft(LAMBDA n, d : MulAdd(n, 10, d - 48), <<>>, s))
Small(s) == FoldLeft(LAMBDA n, d : 10 * n + d - 48, 0, s)        \* up to nine digits
\* a decimal number, or 0 for any other text
Count0(s) == LET t == Trim(s, WS) IN IF IsDec(t) THEN DecNum(t) ELSE <<>>

(* variable length numbers: seven bits per byte, the top bit says: goes on      *)
NoVal == [ok |-> FALSE, val |-> <<>>, next |-> 0]
ReadVar(e, p) ==
  LET ends == {i \in p..Len(e) : e[i] < 128} IN
  IF ends = {} THEN NoVal
  ELSE LET q == Min(ends) IN
       [ok |-> TRUE, val |-> Canon([i \in 1..(q - p + 1) |-> e[p + i - 1] % 128]), next |-> q + 1]
RECURSIVE ReadVars(_, _)                 \* all of e from p : <<ok, numbers>>
ReadVars(e, p) ==
  IF p > Len(e) THEN <<TRUE, <<>>>>
  ELSE LET r == ReadVar(e, p) IN
       IF ~r.ok THEN <<FALSE, <<>>>>
       ELSE LET rest == ReadVars(e, r.next) IN <<rest[1], <<r.val>> \o rest[2]>>
ToInt(num) == FoldRight(LAMBDA d, n : n * 128 + d, num, 0)
\* a counted string at p
ReadText(e, p) ==
  LET n == ReadVar(e, p) IN
  IF ~n.ok \/ Len(n.val) > 4 THEN NoVal
  ELSE IF n.next + ToInt(n.val) - 1 > Len(e) THEN NoVal
  ELSE [ok |-> TRUE, val |-> SubSeq(e, n.next, n.next + ToInt(n.val) - 1), next |-> n.next + ToInt(n.val)]

-----------------------------------------------------------------------------
(* unsigned numbers *)
WantVars(v) == [i \in 1..Len(SplitAt(v, 0)) |-> Count0(SplitAt(v, 0)[i])]
VarsOK(v, e) == LET r == ReadVars(e, 1) IN r[1] /\ r[2] = WantVars(v)

(* dates *)
cp(a, b, c) == <<a, b, c>>
Months == <<cp(106,97,110), cp(102,101,98), cp(109,97,114), cp(97,112,114), cp(109,97,121), cp(106,117,110),
            cp(106,117,108), cp(97,117,103), cp(115,101,112), cp(111,99,116), cp(110,111,118), cp(100,101,99)>>
Days == {cp(109,111,110), cp(116,117,101), cp(119,101,100), cp(116,104,117), cp(102,114,105), cp(115,97,116), cp(115,117,110)}
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days from 1 January 1 to the given day
DayNumber(y, m, d) ==
  (365 * (y - 1)) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
  + FoldLeft(LAMBDA a, k : a + MonthLen(y, k), 0, [k \in 1..(m - 1) |-> k]) + d - 1
\* "Www, dd Mmm yyyy hh:mm:ss GMT"
IsDate(v) ==
  /\ Len(v) = 29 /\ v[4] = 44 /\ v[5] = 32 /\ v[8] = 32 /\ v[12] = 32 /\ v[17] = 32 /\ v[20] = 58 /\ v[23] = 58 /\ v[26] = 32
  /\ Lower(SubSeq(v, 1, 3)) \in Days /\ Lower(SubSeq(v, 9, 11)) \in ToSet(Months) /\ SubSeq(v, 27, 29) = <<71, 77, 84>>
  /\ IsDec(SubSeq(v, 6, 7)) /\ IsDec(SubSeq(v, 13, 16)) /\ IsDec(SubSeq(v, 18, 19)) /\ IsDec(SubSeq(v, 21, 22))
  /\ IsDec(SubSeq(v, 24, 25))
  /\ LET d == Small(SubSeq(v, 6, 7))  y == Small(SubSeq(v, 13, 16))
         m == CHOOSE k \in 1..12 : Months[k] = Lower(SubSeq(v, 9, 11)) IN
     y >= 1 /\ d \in 1..MonthLen(y, m) /\ Small(SubSeq(v, 18, 19)) < 24 /\ Small(SubSeq(v, 21, 22)) < 60
     /\ Small(SubSeq(v, 24, 25)) < 60
\* seconds since 1 January of the base year; earlier moments count as that one
DateNum(v, base) ==
  LET m == CHOOSE k \in 1..12 : Months[k] = Lower(SubSeq(v, 9, 11))
      days == DayNumber(Small(SubSeq(v, 13, 16)), m, Small(SubSeq(v, 6, 7))) - DayNumber(base, 1, 1)
      secs == 3600 * Small(SubSeq(v, 18, 19)) + 60 * Small(SubSeq(v, 21, 22)) + Small(SubSeq(v, 24, 25))
  IN IF days < 0 THEN <<>> ELSE Canon(MulAdd(Num(days), 86400, secs))
WantDate(v, base) == IF IsDate(v) THEN DateNum(v, base) ELSE Count0(v)      \* or delta seconds
DateOK(v, e, base) == LET r == ReadVar(e, 1) IN r.ok /\ r.next = Len(e) + 1 /\ r.val = WantDate(v, base)

(* methods: seven are known by number *)
Methods == <<<<103,101,116>>, <<112,111,115,116>>, <<112,117,116>>, <<112,97,116,99,104>>, <<100,101,108,101,116,101>>,
             <<111,112,116,105,111,110,115>>, <<99,111,110,110,101,99,116>>>>
MethodOK(v, e) == IF v \in ToSet(Methods) THEN Len(e) = 1 /\ e[1] \in 1..7 /\ Methods[e[1]] = v ELSE e = v

(* cache directives *)
sMaxAge == <<109,97,120,45,97,103,101>>            sMaxStale == <<109,97,120,45,115,116,97,108,101>>
sMinFresh == <<109,105,110,45,102,114,101,115,104>> sSMaxAge == <<115,45,109,97,120,97,103,101>>
sNoCache == <<110,111,45,99,97,99,104,101>>        sPrivate == <<112,114,105,118,97,116,101>>
Directives(v) == [i \in 1..Len(SplitAny(v, {0, 44})) |-> Lower(SplitAny(v, {0, 44})[i])]
WithArg(v, n) ==       \* the arguments of directive n, in order
  LET ds == SelectSeq(Directives(v), LAMBDA d : 61 \in ToSet(d) /\ Trim(Before(d, {61}), WS) = n)
  IN [i \in 1..Len(ds) |-> Trim(After(ds[i], {61}), WS)]
Bare(v, n) == \E i \in 1..Len(Directives(v)) : Trim(Directives(v)[i], WS) = n
WantDirective(v, n) == IF Bare(v, n) THEN Num(1)
                       ELSE IF WithArg(v, n) = <<>> THEN <<>> ELSE Count0(Last(WithArg(v, n)))
WantFields(v, n) == IF Bare(v, n) \/ WithArg(v, n) = <<>> THEN <<>> ELSE Last(WithArg(v, n))
\* an optional list of field names: 0, or 1 and the text
ReadFields(e, p) ==
  LET r == ReadVar(e, p) IN
  IF ~r.ok THEN NoVal ELSE IF r.val = <<>> THEN [r EXCEPT !.val = <<>>]
  ELSE IF r.val = <<1>> THEN ReadText(e, r.next) ELSE NoVal
ControlOK(v, e, req) ==
  LET a == ReadVar(e, 2)
      b == ReadVar(e, a.next)
  IN /\ Len(e) > 0 /\ a.ok /\ a.val = WantDirective(v, sMaxAge)
     /\ b.ok /\ b.val = WantDirective(v, IF req THEN sMaxStale ELSE sSMaxAge)
     /\ IF req
        THEN LET c == ReadVar(e, b.next)  d == ReadVar(e, c.next) IN
             c.ok /\ c.val = WantDirective(v, sMinFresh) /\ d.ok /\ d.val = <<>> /\ d.next = Len(e) + 1
        ELSE LET c == ReadFields(e, b.next)  d == ReadFields(e, c.next)  x == ReadVar(e, d.next) IN
             /\ c.ok /\ c.val = WantFields(v, sNoCache) /\ d.ok /\ d.val = WantFields(v, sPrivate)
             /\ x.ok /\ x.val = <<>> /\ x.next = Len(e) + 1

(* accepted values: those with a quality above 0, the best first, "*" last *)
Quality(s) ==    \* of an item "value" or "value;q=x.yyy": thousandths
  LET ps == SplitAny(s, {59})
      last == Trim(ps[Len(ps)], WS) IN
  IF Len(ps) > 1 /\ Len(last) > 2 /\ SubSeq(last, 1, 2) = <<113, 61>>
  THEN LET whole == Before(SubSeq(last, 3, Len(last)), {46})
           frac == After(SubSeq(last, 3, Len(last)), {46})
           f3 == [i \in 1..3 |-> IF i <= Len(frac) THEN frac[i] ELSE 48]
       IN [val |-> Trim(Join(SubSeq(ps, 1, Len(ps) - 1), <<59>>), WS), q |-> Min2(1000, 1000 * Small(whole) + Small(f3))]
  ELSE [val |-> Trim(s, WS), q |-> 1000]
Offers(v) == LET items == SelectSeq(SplitAny(v, {44}), LAMBDA s : Trim(s, WS) # <<>>)
             IN SelectSeq([i \in 1..Len(items) |-> Quality(items[i])], LAMBDA o : o.q > 0)
Rank(o) == IF o.val = <<42>> THEN 1001 - o.q + 2000 ELSE 1001 - o.q
WantAccept(v) ==
  LET os == Offers(v)
      idx == SetToSortSeq(1..Len(os), LAMBDA i, j : Rank(os[i]) < Rank(os[j]) \/ (Rank(os[i]) = Rank(os[j]) /\ i < j))
  IN Join([k \in 1..Len(os) |-> os[idx[k]].val], <<0>>)
AcceptOK(v, e) == e = WantAccept(v)

(* entity tags: a count, then 16 bytes for each; which bytes is for the whole   *)
(* history to say (the same for the same tag, different ones for others)        *)
Tags(v) == SplitAt(v, 0)
DigestsOK(v, e) ==
  LET n == ReadVar(e, 1) IN
  /\ n.ok /\ n.val = Num(Len(Tags(v))) /\ Len(e) = n.next - 1 + 17 * Len(Tags(v))
  /\ \A i \in 1..Len(Tags(v)) : e[n.next + 17 * (i - 1)] = 16
Digests(v, e) == LET n == ReadVar(e, 1) IN
  {<<Tags(v)[i], SubSeq(e, n.next + 17 * (i - 1) + 1, n.next + 17 * i - 1)>> : i \in 1..Len(Tags(v))}

(* values that are hexadecimal or base 64 text are sent as the bytes they mean *)
HexVal(c) == IF c \in Digits THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
IsHex(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexVal(s[i]) >= 0
Unhex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]
B64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in Digits THEN c + 4
          ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Pads(s) == LET n == Len(s) IN
  IF n > 1 /\ s[n] = 61 /\ s[n - 1] = 61 THEN 2 ELSE IF n > 0 /\ s[n] = 61 THEN 1 ELSE 0
Is64(s) == Len(s) % 4 = 0 /\ \A i \in 1..(Len(s) - Pads(s)) : B64(s[i]) >= 0
Un64(s) ==
  LET d(i) == IF B64(s[i]) < 0 THEN 0 ELSE B64(s[i])
      quad(k) == LET x == 4 * k - 3
                     w == d(x) * 262144 + d(x + 1) * 4096 + d(x + 2) * 64 + d(x + 3)
                 IN <<w \div 65536, (w \div 256) % 256, w % 256>>
      all == Concat([k \in 1..(Len(s) \div 4) |-> quad(k)])
  IN SubSeq(all, 1, Len(all) - Pads(s))
Plain(s) == IF IsHex(s) THEN Unhex(s) ELSE IF Is64(s) THEN Un64(s) ELSE s

(* cookies: a flag byte, the name and the plain value of each *)
Unquote(s) == IF Len(s) > 1 /\ s[1] = 34 /\ s[Len(s)] = 34 THEN SubSeq(s, 2, Len(s) - 1) ELSE s
Named(item) == IF 61 \in ToSet(item) THEN <<Before(item, {61}), Unquote(After(item, {61}))>> ELSE <<item, <<>>>>
NamedItems(v) == LET items == SelectSeq(SplitAny(v, {44}), LAMBDA s : Trim(s, WS) # <<>>)
                 IN [i \in 1..Len(items) |-> Named(Trim(items[i], WS))]
WantCookie(v) == Dict([i \in 1..Len(NamedItems(v)) |-> <<NamedItems(v)[i][1], Plain(NamedItems(v)[i][2])>>])
RECURSIVE ReadCookie(_, _)       \* <<ok, sequence of pairs>>
ReadCookie(e, p) ==
  IF p > Len(e) THEN <<TRUE, <<>>>>
  ELSE LET n == ReadText(e, p + 1) IN
       IF ~n.ok THEN <<FALSE, <<>>>>
       ELSE LET v == ReadText(e, n.next) IN
            IF ~v.ok THEN <<FALSE, <<>>>>
            ELSE LET rest == ReadCookie(e, v.next) IN <<rest[1], <<<<n.val, v.val>>>> \o rest[2]>>
CookieOK(v, e) == LET r == ReadCookie(e, 1) IN
  r[1] /\ ToSet(r[2]) = WantCookie(v) /\ Len(r[2]) = Cardinality(WantCookie(v))

(* set-cookie: a flag byte, name, plain value, path, domain (two-byte lengths), *)
(* life time in seconds or, without one, the date of expiry; cookies are apart  *)
(* by a zero byte                                                              *)
sPath == <<112,97,116,104>>  sDomain == <<100,111,109,97,105,110>>  sExpires == <<101,120,112,105,114,101,115>>
Attr(parts, n) ==
  LET as == SelectSeq(parts, LAMBDA s : 61 \in ToSet(s) /\ Lower(Trim(Before(s, {61}), WS)) = n)
  IN IF as = <<>> THEN <<>> ELSE Trim(After(as[Len(as)], {61}), WS)
WantSetCookie(v, base) ==
  LET parts == SplitAny(v, {59})
      rest == IF Len(parts) > 1 THEN Tail(parts) ELSE <<>>
  IN [name |-> Trim(Before(parts[1], {61}), WS), val |-> Plain(Trim(After(parts[1], {61}), WS)),
      path |-> Attr(rest, sPath), domain |-> Attr(rest, sDomain),
      life |-> IF Attr(rest, sMaxAge) # <<>> THEN Count0(Attr(rest, sMaxAge)) ELSE WantDate(Attr(rest, sExpires), base)]
Read16Text(e, p) ==
  IF p + 1 > Len(e) THEN NoVal
  ELSE LET n == 256 * e[p] + e[p + 1] IN
       IF p + 1 + n > Len(e) THEN NoVal ELSE [ok |-> TRUE, val |-> SubSeq(e, p + 2, p + 1 + n), next |-> p + 2 + n]
ReadSetCookie(e, p) ==
  LET n == ReadText(e, p + 1)
      v == IF n.ok THEN ReadText(e, n.next) ELSE NoVal
      a == IF v.ok THEN Read16Text(e, v.next) ELSE NoVal
      d == IF a.ok THEN Read16Text(e, a.next) ELSE NoVal
      m == IF d.ok THEN ReadVar(e, d.next) ELSE NoVal
  IN [ok |-> m.ok, next |-> m.next,
      val |-> [name |-> n.val, val |-> v.val, path |-> a.val, domain |-> d.val, life |-> m.val]]
RECURSIVE SetCookiesOK(_, _, _, _)
SetCookiesOK(vs, e, p, base) ==
  LET r == ReadSetCookie(e, p) IN
  /\ r.ok /\ r.val = WantSetCookie(Head(vs), base)
  /\ IF Len(vs) = 1 THEN r.next = Len(e) + 1
     ELSE r.next <= Len(e) /\ e[r.next] = 0 /\ SetCookiesOK(Tail(vs), e, r.next + 1, base)
SetCookieOK(v, e, base) == SetCookiesOK(SplitAt(v, 0), e, 1, base)

(* P3P: the reference of the policy and a byte for each token of the compact one *)
P3PTokens == <<
 <<78,79,73>>,<<65,76,76>>,<<67,65,79>>,<<73,68,67>>,<<79,84,73>>,<<78,79,78>>,<<68,83,80>>,<<67,79,82>>,<<77,79,78>>,
 <<76,65,87>>,<<78,73,68>>,<<67,85,82>>,<<65,68,77>>,<<68,69,86>>,<<84,65,73>>,<<80,83,65>>,<<80,83,68>>,<<73,86,65>>,
 <<73,86,68>>,<<67,79,78>>,<<72,73,83>>,<<84,69,76>>,<<79,84,80>>,<<79,85,82>>,<<68,69,76>>,<<83,65,77>>,<<85,78,82>>,
 <<80,85,66>>,<<79,84,82>>,<<78,79,82>>,<<83,84,80>>,<<76,69,71>>,<<66,85,83>>,<<73,78,68>>,<<80,72,89>>,<<79,78,76>>,
 <<85,78,73>>,<<80,85,82>>,<<70,73,78>>,<<67,79,77>>,<<78,65,86>>,<<73,78,84>>,<<68,69,77>>,<<67,78,84>>,<<83,84,65>>,
 <<80,79,76>>,<<72,69,65>>,<<80,82,69>>,<<76,79,67>>,<<71,79,86>>,<<79,84,67>>,<<84,83,84>>>>
sPolicyRef == <<112,111,108,105,99,121,114,101,102>>   sCP == <<67,80>>
Suffix(t) == IF Len(t) = 4 THEN (IF t[4] = 105 THEN 1 ELSE IF t[4] = 111 THEN 2 ELSE 0) ELSE 0     \* none: "always"
WantTokens(v) ==
  LET ts == SplitAt(Get(NamedItems(v), sCP), 32) IN
  IF \E i \in 1..Len(ts) : Slice(ts[i], 1, 3) \notin ToSet(P3PTokens) THEN <<>>     \* no compact policy at all
  ELSE [i \in 1..Len(ts) |-> <<Slice(ts[i], 1, 3), Suffix(ts[i])>>]
P3POK(v, e) ==
  LET r == ReadText(e, 1) IN
  /\ r.ok /\ r.val = Get(NamedItems(v), sPolicyRef)
  /\ LET codes == SubSeq(e, r.next, Len(e)) IN
     /\ \A i \in 1..Len(codes) : codes[i] \div 4 \in 1..Len(P3PTokens) /\ codes[i] % 4 < 3
     /\ [i \in 1..Len(codes) |-> <<P3PTokens[codes[i] \div 4], codes[i] % 4>>] = WantTokens(v)

-----------------------------------------------------------------------------
(* which names have which encoding *)
sDate == <<100,97,116,101>>
DateNames == {<<108,97,115,116,45,109,111,100,105,102,105,101,100>>, sDate, sExpires,
              <<105,102,45,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>,
              <<105,102,45,117,110,109,111,100,105,102,105,101,100,45,115,105,110,99,101>>}
NumberNames == {<<58,115,116,97,116,117,115>>, <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>, <<97,103,101>>}
AcceptNames == {<<97,99,99,101,112,116>>, <<97,99,99,101,112,116,45,108,97,110,103,117,97,103,101>>,
                <<97,99,99,101,112,116,45,101,110,99,111,100,105,110,103>>, <<97,99,99,101,112,116,45,99,104,97,114,115,101,116>>}
TagNames == {<<101,116,97,103>>, <<105,102,45,109,97,116,99,104>>, <<105,102,45,110,111,110,101,45,109,97,116,99,104>>}
sSetCookie == <<115,101,116,45,99,111,111,107,105,101>>
sControl == <<99,97,99,104,101,45,99,111,110,116,114,111,108>>
sMethod == <<58,109,101,116,104,111,100>>
sP3P == <<112,51,112>>
Typed == DateNames \cup NumberNames \cup AcceptNames \cup TagNames \cup {sSetCookie, Cookie, sControl, sMethod, sP3P}
\* e is an encoding of value v of header n (dates count from the base year)
Denotes(n, v, e, req, base) ==
  CASE n \in DateNames -> DateOK(v, e, base)
    [] n \in NumberNames -> VarsOK(v, e)
    [] n \in AcceptNames -> AcceptOK(v, e)
    [] n \in TagNames -> DigestsOK(v, e)
    [] n = sSetCookie -> SetCookieOK(v, e, base)
    [] n = Cookie -> CookieOK(v, e)
    [] n = sControl -> ControlOK(v, e, req)
    [] n = sMethod -> MethodOK(v, e)
    [] n = sP3P -> P3POK(v, e)
    [] OTHER -> e = v
=============================================================================
