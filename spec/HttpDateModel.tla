----------------------------- MODULE HttpDateModel -----------------------------
(* The three written forms of every day of the given years name the same moment, *)
(* the preferred form of that moment is the first of them, and days count up     *)
(* one by one with the weekdays following each other.                            *)
EXTENDS HttpDate, TLC
CONSTANTS FirstYear, LastYear
VARIABLE day
Clocks == {0, 1, 31 * 86 + 3, 46800, 86399}
Init == day = <<FirstYear, 1, 1>>
Following(d) == IF d[3] < MonthLen(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
                ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
Next == day # <<LastYear, 12, 31>> /\ day' = Following(day)
Spec == Init /\ [][Next]_day
At(d, s) == [ok |-> TRUE, day |-> DayNumber(d[1], d[2], d[3]) - DayNumber(1970, 1, 1), sec |-> s]
Text1(d, s) == Preferred(At(d, s))
Mon(d) == UpFirst(Months[d[2]])
Text2(d, s) == <<83, 117, 110, 100, 97, 121, 44, 32>> \o Two2(d[3]) \o <<45>> \o Mon(d) \o <<45>> \o Two2(d[1] % 100)
               \o <<32>> \o SubSeq(Text1(d, s), 18, 29)
Text3(d, s) == <<83, 117, 110, 32>> \o Mon(d) \o <<32>> \o (IF d[3] < 10 THEN <<32, 48 + d[3]>> ELSE Two2(d[3])) \o <<32>>
               \o SubSeq(Text1(d, s), 18, 25) \o <<32>> \o Four(d[1])
Reads == \A s \in Clocks :
           /\ Fixdate(Text1(day, s)) = At(day, s) /\ Asctime(Text3(day, s)) = At(day, s)
           /\ ((day[1] \in 1969..2068) => Rfc850(Text2(day, s)) = At(day, s))
           /\ Moment(Text1(day, s)).ok /\ ~Rfc850(Text1(day, s)).ok /\ ~Asctime(Text1(day, s)).ok
Counts == [][At(day', 0).day = At(day, 0).day + 1 /\ Civil(DayNumber(day'[1], day'[2], day'[3])) = day']_day
Thursday == Preferred(At(<<1970, 1, 1>>, 0))
              = <<84,104,117,44,32,48,49,32,74,97,110,32,49,57,55,48,32,48,48,58,48,48,58,48,48>> \o sGMT
Hexes == /\ HexMoment(<<51,56,54,100,52,51,56,48>>) = At(<<2000, 1, 1>>, 0)      \* 386d4380
         /\ HexMoment(<<45, 49>>) = At(<<1969, 12, 31>>, 86399) /\ HexMoment(<<48>>) = At(<<1970, 1, 1>>, 0)
=============================================================================
