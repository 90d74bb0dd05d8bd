------------------------------- MODULE Chrono -------------------------------
(* Durations, points in time, dates, and the flags that choose how points    *)
(* in time are printed.                                                      *)
(* A point in time is [d, s, ns]: days since 1970-01-01 UTC, second of the   *)
(* day, nanosecond of the second.  A local time is [d, s]: the same of a     *)
(* wall clock.                                                               *)
EXTENDS Text

-----------------------------------------------------------------------------
(* The Gregorian calendar *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
LeapsBefore(y) == LET z == y - 1 IN z \div 4 - z \div 100 + z \div 400
DaysToYear(y) == 365 * (y - 1970) + LeapsBefore(y) - LeapsBefore(1970)
RECURSIVE DaysToMonth(_, _)
DaysToMonth(y, m) == IF m = 1 THEN 0 ELSE MonthLen(y, m - 1) + DaysToMonth(y, m - 1)
DayOf(y, m, d) == DaysToYear(y) + DaysToMonth(y, m) + d - 1      \* d may lie outside of the month: days are counted on

YearOf(day) == LET g == 1970 + (day * 400) \div 146097
               IN CHOOSE y \in (g - 1)..(g + 1) : DaysToYear(y) <= day /\ day < DaysToYear(y + 1)
Civil(day) ==
  LET y == YearOf(day)
      n == day - DaysToYear(y)
      m == CHOOSE k \in 1..12 : DaysToMonth(y, k) <= n /\ n < DaysToMonth(y, k) + MonthLen(y, k)
  IN [y |-> y, m |-> m, d |-> n - DaysToMonth(y, m) + 1]
Weekday(day) == (day + 4) % 7                                    \* 1970-01-01 was a Thursday
NextDate(c) == IF c.d < MonthLen(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
               ELSE IF c.m < 12 THEN [c EXCEPT !.m = @ + 1, !.d = 1]
               ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]

-----------------------------------------------------------------------------
(* Clocks on the wall.  A zone is [tz, off, dst, from, to]: the text of the  *)
(* zone, seconds ahead of UTC, whether there is summer time, and when that   *)
(* begins and ends: <<month, which Sunday, second of the day in winter time>>*)
DaySec == 86400
Norm(d, s) == [d |-> d + s \div DaySec, s |-> s % DaySec]
Before(a, b) == a.d < b.d \/ (a.d = b.d /\ a.s < b.s)
Sunday(y, m, k) == LET first == DayOf(y, m, 1) IN first + ((7 - Weekday(first)) % 7) + 7 * (k - 1)
Switch(y, w) == Norm(Sunday(y, w[1], w[2]), w[3])

Zones == <<[tz |-> "UTC0", off |-> 0, dst |-> FALSE, from |-> <<1, 1, 0>>, to |-> <<1, 1, 0>>],
           [tz |-> "EST5EDT,M3.2.0,M11.1.0", off |-> -18000, dst |-> TRUE, from |-> <<3, 2, 7200>>, to |-> <<11, 1, 3600>>],
           [tz |-> "IST-5:30", off |-> 19800, dst |-> FALSE, from |-> <<1, 1, 0>>, to |-> <<1, 1, 0>>],
           [tz |-> "AEST-10AEDT,M10.1.0,M4.1.0/3", off |-> 36000, dst |-> TRUE, from |-> <<10, 1, 7200>>, to |-> <<4, 1, 7200>>]>>

Summer(w, z) ==  \* whether it is summer time at the winter-time wall clock w
  /\ z.dst
  /\ LET y == YearOf(w.d)
         a == Switch(y, z.from)
         b == Switch(y, z.to)
     IN IF Before(a, b) THEN ~Before(w, a) /\ Before(w, b) ELSE ~Before(w, a) \/ Before(w, b)
IsSummer(t, z) == Summer(Norm(t.d, t.s + z.off), z)
Local(t, z) == Norm(t.d, t.s + z.off + (IF IsSummer(t, z) THEN 3600 ELSE 0))
\* the points in time a wall clock shows l: none or two around the switches
PointsOf(l, z) == {p \in {Norm(l.d, l.s - z.off), Norm(l.d, l.s - z.off - 3600)} : Local(p, z) = l}
Plain(l, z) == Cardinality(PointsOf(l, z)) = 1
PointOf(l, z) == CHOOSE p \in PointsOf(l, z) : TRUE

-----------------------------------------------------------------------------
(* Texts *)
Pad(n, w) == LET t == ToString(n) IN IF Len(t) >= w THEN t ELSE SubSeq("000000000", 1, w - Len(t)) \o t
DateText(d, sep) == LET c == Civil(d) IN Pad(c.y, 4) \o sep \o Pad(c.m, 2) \o sep \o Pad(c.d, 2)
ClockText(s) == Pad(s \div 3600, 2) \o ":" \o Pad((s \div 60) % 60, 2) \o ":" \o Pad(s % 60, 2)

(* A duration: years of 365 days, days, hours, minutes, seconds, then the    *)
(* fraction in groups of three digits.  u = <<y, d, h, m, s, ms, us, ns>>.   *)
DurationText(u) ==
  LET N(i) == ToString(u[i])
      yd   == u[1] # 0 \/ u[2] # 0
      hh   == yd \/ u[3] # 0
      mm   == hh \/ u[4] # 0
      ms   == u[6] # 0
      us   == u[7] # 0 \/ (ms /\ u[8] # 0)
      ns   == u[8] # 0
      W(i, padded) == IF padded THEN Pad(u[i], 3) ELSE N(i)
  IN (IF u[1] # 0 THEN N(1) \o "y:" ELSE "") \o (IF u[2] # 0 THEN N(2) \o "d:" ELSE "")
     \o (IF hh THEN N(3) \o "h:" ELSE "") \o (IF mm THEN N(4) \o "m" ELSE "")
     \o (IF u[5] # 0 THEN (IF mm THEN ":" ELSE "") \o N(5) \o "s" ELSE "")
     \o (IF ms THEN W(6, mm) ELSE "")
     \o (IF us THEN (IF ms THEN "." ELSE "") \o W(7, mm \/ ms) ELSE "")
     \o (IF ns THEN (IF us THEN "." ELSE "") \o W(8, TRUE) ELSE "")
     \o (IF ms THEN "ms" ELSE IF us THEN "us" ELSE IF ns THEN "ns" ELSE "")

(* What such a text says, read without knowing how it was written: numbers   *)
(* with units, the last of which may have groups of thousandths.             *)
NumAt(s, i) == SpanFrom(s, i, Digits)
RECURSIVE Val(_)
Val(t) == IF t = "" THEN 0 ELSE 10 * Val(Take(t, Len(t) - 1)) + DigitVal[Ch(t, Len(t))]
UnitIndex == [y |-> 1, d |-> 2, h |-> 3, m |-> 4, s |-> 5, ms |-> 6, us |-> 7, ns |-> 8]
RECURSIVE ReadDuration(_, _)
ReadDuration(s, u) ==
  IF s = "" THEN u
  ELSE IF Ch(s, 1) = ":" THEN ReadDuration(Drop(s, 1), u)
  ELSE LET a  == NumAt(s, 0)
           g2 == a < Len(s) /\ Ch(s, a + 1) = "."
           b  == IF g2 THEN NumAt(s, a + 1) ELSE 0
           e2 == IF g2 THEN a + 1 + b ELSE a
           g3 == g2 /\ e2 < Len(s) /\ Ch(s, e2 + 1) = "."
           c  == IF g3 THEN NumAt(s, e2 + 1) ELSE 0
           e  == IF g3 THEN e2 + 1 + c ELSE e2
           ul == IF e + 2 <= Len(s) /\ SubSeq(s, e + 1, e + 2) \in {"ms", "us", "ns"} THEN 2 ELSE 1
           k  == UnitIndex[SubSeq(s, e + 1, e + ul)]
           u1 == [u EXCEPT ![k] = Val(Take(s, a))]
           u2 == IF g2 THEN [u1 EXCEPT ![k + 1] = Val(SubSeq(s, a + 2, e2))] ELSE u1
           u3 == IF g3 THEN [u2 EXCEPT ![k + 2] = Val(SubSeq(s, e2 + 2, e))] ELSE u2
       IN ReadDuration(Drop(s, e + ul), u3)
Denotes(s, u) == ReadDuration(s, <<0, 0, 0, 0, 0, 0, 0, 0>>) = u

-----------------------------------------------------------------------------
(* The flags: which clock points in time are printed by, and how much of the *)
(* second.                                                                   *)
Width == {"ms", "us", "ns"}
Start == [utc |-> TRUE, w |-> "us"]
Flag(f, k) == CASE k \in Width -> [f EXCEPT !.w = k]
                [] k = "gmt" -> [f EXCEPT !.utc = TRUE]
                [] k = "local" -> [f EXCEPT !.utc = FALSE]
                [] k = "clear" -> Start
Fraction(ns, w) == CASE w = "ms" -> "." \o Pad(ns \div 1000000, 3)
                     [] w = "us" -> "." \o Pad(ns \div 1000, 6)
                     [] w = "ns" -> "," \o Pad(ns, 9)
PointText(t, f, z, sep) == LET l == IF f.utc THEN [d |-> t.d, s |-> t.s] ELSE Local(t, z)
                           IN DateText(l.d, sep) \o " " \o ClockText(l.s) \o Fraction(t.ns, f.w)

(* Calculations with dates *)
\* the k-th day from the end of the month `months` - 1 months on
FromMonthEnd(c, k, months) == LET mm == c.m - 1 + months IN DayOf(c.y + mm \div 12, (mm % 12) + 1, 1) - k
FromYearEnd(c, k) == DaysToYear(c.y + 1) - k
DateOrder(p, q, z) == LET a == Local(p, z).d  b == Local(q, z).d IN IF a = b THEN 0 ELSE IF a < b THEN -1 ELSE 1
=============================================================================
