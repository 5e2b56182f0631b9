------------------------------- MODULE BoheModel -------------------------------
(* The encodings of Bohe.tla say what they should, for every small value:       *)
(* numbers survive writing and reading (whatever follows them), the seconds of  *)
(* dates grow by one day per day and never repeat, bytes survive being written  *)
(* as hexadecimal or base 64 text.                                             *)
EXTENDS Bohe
CONSTANTS MaxNum, FirstYear, LastYear
VARIABLES n, day
vars == <<n, day>>
WriteVar(num) == IF Len(num) < 2 THEN (IF num = <<>> THEN <<0>> ELSE num)
                 ELSE [i \in 1..Len(num) |-> num[i] + (IF i < Len(num) THEN 128 ELSE 0)]
RECURSIVE DecText(_)
DecText(k) == IF k < 10 THEN <<48 + k>> ELSE DecText(k \div 10) \o <<48 + (k % 10)>>
Two(k) == <<48 + (k \div 10), 48 + (k % 10)>>
Cap(s) == <<s[1] - 32>> \o Tail(s)
DateText(d, secs) == <<77, 111, 110, 44, 32>> \o Two(d[3]) \o <<32>> \o Cap(Months[d[2]]) \o <<32>> \o DecText(d[1]) \o <<32>>
   \o Two(secs \div 3600) \o <<58>> \o Two((secs \div 60) % 60) \o <<58>> \o Two(secs % 60) \o <<32, 71, 77, 84>>
NextDay(d) == IF d[3] < MonthLen(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
              ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
Init == n = 0 /\ day = <<FirstYear, 1, 1>>
Next == \/ n < MaxNum /\ n' = n + 1 /\ UNCHANGED day
        \/ n = MaxNum /\ day[1] <= LastYear /\ day' = NextDay(day) /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Number == \A k \in {n, n * 128 + 1, n * 16384} :
  /\ Num(k) = DecNum(DecText(k)) /\ ToInt(Num(k)) = k
  /\ \A rest \in {<<>>, <<0>>, <<200, 1>>} :
       ReadVar(WriteVar(Num(k)) \o rest, 1) = [ok |-> TRUE, val |-> Num(k), next |-> Len(WriteVar(Num(k))) + 1]
  /\ Count0(DecText(k)) = Num(k) /\ VarsOK(DecText(k) \o <<0>> \o DecText(n), WriteVar(Num(k)) \o WriteVar(Num(n)))
Calendar ==
  /\ DayNumber(NextDay(day)[1], NextDay(day)[2], NextDay(day)[3]) = DayNumber(day[1], day[2], day[3]) + 1
  /\ \A s \in {0, 1, 3599, 43200, 86399} :
       /\ IsDate(DateText(day, s))
       /\ DateOK(DateText(day, s), WriteVar(Canon(MulAdd(Num(DayNumber(day[1], day[2], day[3]) - DayNumber(FirstYear, 1, 1)), 86400, s))),
                 FirstYear)
Anchors == DayNumber(1970, 1, 1) = 719162 /\ DayNumber(2000, 3, 1) - DayNumber(1970, 1, 1) = 11017
           /\ ToInt(DateNum(DateText(<<2001, 9, 9>>, 6400), 1970)) = 1000000000
HexC(k) == IF k < 10 THEN 48 + k ELSE 87 + k
C64(k) == IF k < 26 THEN k + 65 ELSE IF k < 52 THEN k + 71 ELSE IF k < 62 THEN k - 4 ELSE IF k = 62 THEN 43 ELSE 47
Bytes ==
  LET a == n % 256  b == (n * 7) % 256  c == (n * 31) % 256 IN
  /\ Plain(<<HexC(a \div 16), HexC(a % 16)>>) = <<a>>
  /\ Un64(<<C64(a \div 4), C64((a % 4) * 16 + (b \div 16)), C64((b % 16) * 4 + (c \div 64)), C64(c % 64)>>) = <<a, b, c>>
  /\ Un64(<<C64(a \div 4), C64((a % 4) * 16 + (b \div 16)), C64((b % 16) * 4), 61>>) = <<a, b>>
  /\ Un64(<<C64(a \div 4), C64((a % 4) * 16), 61, 61>>) = <<a>>
=============================================================================
