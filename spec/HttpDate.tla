------------------------------- MODULE HttpDate -------------------------------
(* HTTP dates: the three forms a date may be written in, the moment each one     *)
(* names, and the preferred form of a moment.  A moment is <<day, second>>:      *)
(* days since 1 January 1970 (negative before) and seconds since midnight.       *)
EXTENDS Bohe

IsWord(s) == \A i \in 1..Len(s) : s[i] \in (48..57) \cup (65..90) \cup (97..122) \cup {95}
Num2(s, k) == SubSeq(s, k, k + 1)
MonthOf(s) == LET I == {k \in 1..12 : Months[k] = Lower(s)} IN IF I = {} THEN 0 ELSE Min(I)
NoMoment == [ok |-> FALSE, day |-> 0, sec |-> 0]
Clock(s) ==       \* "hh:mm:ss" to seconds, or -1
  IF Len(s) = 8 /\ s[3] = 58 /\ s[6] = 58 /\ IsDec(Num2(s, 1)) /\ IsDec(Num2(s, 4)) /\ IsDec(Num2(s, 7))
  THEN LET h == Small(Num2(s, 1))  m == Small(Num2(s, 4))  x == Small(Num2(s, 7))
       IN IF h < 24 /\ m < 60 /\ x < 60 THEN 3600 * h + 60 * m + x ELSE -1
  ELSE -1
MomentOf(y, mon, d, clock) ==
  IF IsDec(y) /\ IsDec(d) /\ MonthOf(mon) > 0 /\ Clock(clock) >= 0
  THEN LET yy == Small(y)
           yr == IF Len(y) = 2 THEN (IF yy > 68 THEN 1900 + yy ELSE 2000 + yy) ELSE yy
       IN IF yr >= 1 /\ Small(d) \in 1..MonthLen(yr, MonthOf(mon))
          THEN [ok |-> TRUE, day |-> DayNumber(yr, MonthOf(mon), Small(d)) - DayNumber(1970, 1, 1), sec |-> Clock(clock)]
          ELSE NoMoment
  ELSE NoMoment
sGMT == <<32, 71, 77, 84>>
\* "Sun, 06 Nov 1994 08:49:37 GMT"
Fixdate(v) == IF Len(v) = 29 /\ IsWord(SubSeq(v, 1, 3)) /\ v[4] = 44 /\ {v[5], v[8], v[12], v[17]} = {32}
                 /\ SubSeq(v, 26, 29) = sGMT
              THEN MomentOf(SubSeq(v, 13, 16), SubSeq(v, 9, 11), Num2(v, 6), SubSeq(v, 18, 25)) ELSE NoMoment
\* "Sunday, 06-Nov-94 08:49:37 GMT"
Rfc850(v) == LET k == IndexIn(v, {44})  r == Rest(v, k + 1) IN
             IF k \in 7..10 /\ Len(r) = 23 /\ IsWord(SubSeq(v, 1, k - 1)) /\ r[1] = 32 /\ r[4] = 45 /\ r[8] = 45
                /\ r[11] = 32 /\ SubSeq(r, 20, 23) = sGMT
             THEN MomentOf(Num2(r, 9), SubSeq(r, 5, 7), Num2(r, 2), SubSeq(r, 12, 19)) ELSE NoMoment
\* "Sun Nov  6 08:49:37 1994"
Asctime(v) == IF Len(v) = 24 /\ IsWord(SubSeq(v, 1, 3)) /\ {v[4], v[8], v[11], v[20]} = {32}
              THEN MomentOf(SubSeq(v, 21, 24), SubSeq(v, 5, 7), IF v[9] = 32 THEN <<v[10]>> ELSE Num2(v, 9),
                            SubSeq(v, 12, 19))
              ELSE NoMoment
Moment(v) == IF Fixdate(v).ok THEN Fixdate(v) ELSE IF Rfc850(v).ok THEN Rfc850(v) ELSE Asctime(v)

\* the preferred form
Two2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Four(n) == Two2(n \div 100) \o Two2(n % 100)
UpFirst(s) == <<s[1] - 32>> \o Tail(s)
WeekNames == <<cp(109,111,110), cp(116,117,101), cp(119,101,100), cp(116,104,117), cp(102,114,105), cp(115,97,116), cp(115,117,110)>>
RECURSIVE MonthFrom(_, _, _)
MonthFrom(y, m, d) == IF d < MonthLen(y, m) THEN <<m, d + 1>> ELSE MonthFrom(y, m + 1, d - MonthLen(y, m))
Civil(n) ==       \* <<year, month, day>> of the n-th day since 1 January 1
  LET c == {((n \div 366)) + k : k \in 0..24}                       \* the year is one of these
      y == Max({z \in c : z >= 1 /\ DayNumber(z, 1, 1) <= n} \cup {1})
      md == MonthFrom(y, 1, n - DayNumber(y, 1, 1))
  IN <<y, md[1], md[2]>>
Preferred(mo) ==
  LET n == mo.day + DayNumber(1970, 1, 1)
      d == Civil(n)
  IN UpFirst(WeekNames[(n % 7) + 1]) \o <<44, 32>> \o Two2(d[3]) \o <<32>> \o UpFirst(Months[d[2]]) \o <<32>> \o Four(d[1])
     \o <<32>> \o Two2(mo.sec \div 3600) \o <<58>> \o Two2((mo.sec \div 60) % 60) \o <<58>> \o Two2(mo.sec % 60) \o sGMT

\* a moment as hexadecimal seconds since 1970, possibly negative
HexDigit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 16
HexBody(s) == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
IsStamp(s) == HexBody(s) # <<>> /\ Len(s) <= 11 /\ \A i \in 1..Len(HexBody(s)) : HexDigit(HexBody(s)[i]) < 16
HexMoment(s) ==
  LET a == FoldLeft(LAMBDA q, c : LET r == q[2] * 16 + HexDigit(c) IN <<q[1] * 16 + (r \div 86400), r % 86400>>,
                    <<0, 0>>, HexBody(s))
      neg == s[1] = 45 /\ a # <<0, 0>>
  IN [ok |-> TRUE,
      day |-> IF neg THEN (IF a[2] = 0 THEN 0 - a[1] ELSE (0 - a[1]) - 1) ELSE a[1],
      sec |-> IF neg THEN (86400 - a[2]) % 86400 ELSE a[2]]
=============================================================================
