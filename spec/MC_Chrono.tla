------------------------------ MODULE MC_Chrono ------------------------------
(* Histories of setting the flags, printing, reading and calculating, each   *)
(* step with the answer the specification gives.                             *)
EXTENDS Chrono, Json, Randomization

CONSTANTS Kinds, MaxOps, Sample, ZoneSet, Points(_), LocalTimes(_), Durations(_), Offsets(_)
VARIABLES zone, flags, saved, ops
vars == <<zone, flags, saved, ops>>

N == Len(ops)
Z == Zones[zone]
\* about summer time before 1971 nothing is said
Said(d) == Z.dst => d > 366
Ps == {t \in Points(N) : Said(t.d)}
Ls == {l \in LocalTimes(N) : Said(l.d - 1)}
Do(op) == ops' = Append(ops, op)
Same == UNCHANGED <<zone, flags, saved>>

SetFlag == \E k \in {"ms", "us", "ns", "gmt", "local", "clear"} :
             flags' = Flag(flags, k) /\ Do([k |-> "flag", f |-> k]) /\ UNCHANGED <<zone, saved>>
Save    == Len(saved) < 3 /\ saved' = <<flags>> \o saved /\ Do([k |-> "save"]) /\ UNCHANGED <<zone, flags>>
Restore == saved # <<>> /\ flags' = Head(saved) /\ saved' = Tail(saved) /\ Do([k |-> "restore"]) /\ UNCHANGED zone

PrintPoint == \E t \in Ps, sep \in {"-", "/"} :
  Do([k |-> "point", t |-> <<t.d, t.s, t.ns>>, sep |-> sep, text |-> PointText(t, flags, Z, sep),
      loc |-> PointText(t, [flags EXCEPT !.utc = FALSE], Z, sep)]) /\ Same
PrintDuration == \E u \in Durations(N), neg \in {"", "-"} :
  Do([k |-> "duration", u |-> u, neg |-> neg,
      text |-> (IF \A i \in 1..8 : u[i] = 0 THEN "" ELSE neg) \o DurationText(u)]) /\ Same
Fields(l, dst) == LET c == Civil(l.d) IN <<c.y, c.m, c.d, l.s \div 3600, (l.s \div 60) % 60, l.s % 60, Weekday(l.d), l.d - DaysToYear(c.y), dst>>
Round == \E t \in Ps :
  Do([k |-> "round", t |-> <<t.d, t.s, t.ns>>, loc |-> Fields(Local(t, Z), IF IsSummer(t, Z) THEN 1 ELSE 0),
      utc |-> Fields([d |-> t.d, s |-> t.s], 0)]) /\ Same
Order == \E p, q \in Ps :
  Do([k |-> "order", a |-> <<p.d, p.s, p.ns>>, b |-> <<q.d, q.s, q.ns>>, o |-> DateOrder(p, q, Z)]) /\ Same
UN(n) == ToString(n)
Read == \E l \in Ls, form \in {"full", "date", "time"}, sep \in {"-", "/"}, padded \in BOOLEAN :
  LET c == Civil(l.d)
      P(n) == IF padded THEN Pad(n, 2) ELSE UN(n)
      dt == UN(c.y) \o sep \o P(c.m) \o sep \o P(c.d)
      ck == P(l.s \div 3600) \o ":" \o P((l.s \div 60) % 60) \o ":" \o P(l.s % 60)
  IN /\ Plain(l, Z) \/ form = "date"
     /\ form = "time" => (sep = "-" /\ ~Z.dst)
     /\ Do([k |-> "read", form |-> form, text |-> (CASE form = "full" -> dt \o " " \o ck [] form = "date" -> dt [] form = "time" -> ck),
            t |-> (IF form = "full" THEN LET p == PointOf(l, Z) IN <<p.d, p.s>> ELSE <<0, 0>>), g |-> <<l.d, l.s>>, f |-> Fields(l, 0)])
     /\ Same
Unreadable == \E w \in {"", "hello", "2021x", "x2021-01-02", "-", "/", "12;30;00", "noon"} : Do([k |-> "unreadable", text |-> w]) /\ Same
At(day, l) == LET n == [d |-> day, s |-> l.s] IN IF Plain(n, Z) THEN <<1, PointOf(n, Z).d, PointOf(n, Z).s>> ELSE <<0, day, 0>>
MonthEnd == \E l \in Ls, k \in Offsets(N), months \in 1..3 :
  Plain(l, Z) /\ k <= 31 /\ Do([k |-> "month", f |-> Fields(l, IF IsSummer(PointOf(l, Z), Z) THEN 1 ELSE 0), n |-> k, months |-> months,
                                e |-> At(FromMonthEnd(Civil(l.d), k, months), l)]) /\ Same
YearEnd == \E l \in Ls, k \in Offsets(N) :
  Plain(l, Z) /\ Do([k |-> "year", f |-> Fields(l, IF IsSummer(PointOf(l, Z), Z) THEN 1 ELSE 0), n |-> k, e |-> At(FromYearEnd(Civil(l.d), k), l)]) /\ Same
Watch == \E on \in BOOLEAN : Do([k |-> "watch", on |-> on]) /\ Same
Clock == Do([k |-> "clock", w |-> flags.w]) /\ Same

Init == zone \in ZoneSet /\ flags = Start /\ saved = <<>> /\ ops = <<>>
Next == /\ N < MaxOps
        /\ \E ks \in IF Sample = 0 THEN {Kinds} ELSE {{k} : k \in RandomSubset(1, Kinds)} :
           \/ "flags" \in ks /\ (SetFlag \/ Save \/ Restore)
           \/ "point" \in ks /\ PrintPoint
           \/ "duration" \in ks /\ PrintDuration
           \/ "round" \in ks /\ Round
           \/ "order" \in ks /\ Order
           \/ "read" \in ks /\ (Read \/ Unreadable)
           \/ "month" \in ks /\ MonthEnd
           \/ "year" \in ks /\ YearEnd
           \/ "clock" \in ks /\ (Watch \/ Clock)

-----------------------------------------------------------------------------
\* the dates of consecutive days follow each other, and every date is the date of its day
DateOk(d) == LET c == Civil(d) IN DayOf(c.y, c.m, c.d) = d /\ Civil(d + 1) = NextDate(c) /\ c.d \in 1..MonthLen(c.y, c.m)
Last == ops[N]
Invariants ==
  N > 0 =>
    /\ Last.k \in {"point", "round"} => DateOk(Last.t[1])
    \* a printed duration says exactly the duration it was printed from
    /\ Last.k = "duration" => Denotes(IF Last.text # "" THEN (IF Last.neg = "-" THEN Drop(Last.text, 1) ELSE Last.text) ELSE "", Last.u)
    \* a printed time is longer by exactly the fraction chosen
    /\ Last.k = "point" => Len(Last.text) = 19 + (CASE flags.w = "ms" -> 4 [] flags.w = "us" -> 7 [] flags.w = "ns" -> 10)
    \* a wall clock shows every point in time, and the point is among those it shows that time at
    /\ Last.k = "round" => LET t == [d |-> Last.t[1], s |-> Last.t[2]] IN t \in PointsOf(Local(t, Z), Z)
    /\ Last.k = "month" /\ Last.e[1] = 1 => LET t == [d |-> Last.e[2], s |-> Last.e[3]]  c == Civil(Local(t, Z).d) IN
         Last.n <= 28 => /\ c.d = MonthLen(c.y, c.m) - Last.n + 1
                         /\ (c.y * 12 + c.m) = Last.f[1] * 12 + Last.f[2] + Last.months - 1
\* saving and restoring: what is restored is what was saved
SavedProp == [][ops' # ops /\ ops'[N + 1].k = "restore" => flags' = saved[1]]_vars
Emit == N = MaxOps => PrintT("@CASE " \o ToJson([zone |-> Z.tz, ops |-> ops]))

-----------------------------------------------------------------------------
(* Values *)
P3(d, s, ns) == [d |-> d, s |-> s, ns |-> ns]
OnePoint(n) == {P3(18628, 43200, 120034056)}
EdgeDays == {DayOf(y, m, d) : y \in {1969, 1970, 1999, 2000, 2021, 2100}, m \in {1, 2, 3, 12}, d \in {1, 28, 29, 31}}
EdgeDays2 == {DayOf(y, 1, 1) + k : y \in {1700, 1899, 1900, 1969, 1970, 1999, 2000, 2021, 2024, 2100, 2261}, k \in 0..365}
EdgePoints(n) == {P3(d, s, ns) : d \in EdgeDays, s \in {0, 86399}, ns \in {0, 1, 999999999}}
YearPoints(n) == {P3(d, s, 5000) : d \in EdgeDays2, s \in {0, 59, 86399}}
Switches(z) == IF z.dst THEN UNION {{Norm(Switch(y, z.from).d, Switch(y, z.from).s - z.off), Norm(Switch(y, z.to).d, Switch(y, z.to).s - z.off)}
                                    : y \in {1971, 2020, 2021, 2022}} ELSE {}
SwitchPoints(n) == {LET t == Norm(x.d, x.s + k) IN P3(t.d, t.s, 0) : x \in Switches(Z), k \in {-7200, -3601, -3600, -1, 0, 1, 3599, 3600, 7200, 43200}}
SwitchTimes(n) == {Norm(x.d, x.s + k) : x \in {Local(y, Z) : y \in Switches(Z)}, k \in {-90000, -7200, -3600, -1, 0, 3600, 7200, 40000, 90000}}
EdgeTimes(n) == {[d |-> d, s |-> s] : d \in EdgeDays, s \in {0, 43200, 86399}}
YearTimes(n) == {[d |-> DayOf(y, m, d), s |-> 43200] : y \in {1969, 1999, 2000, 2021}, m \in 1..12, d \in {1, 15, 28}}
AllOffsets(n) == 1..31
YearOffsets(n) == {1, 2, 31, 59, 60, 61, 100, 200, 305, 306, 307, 364, 365, 366}
FewOffsets(n) == {1, 10, 31}
Units(a, b, c, d, e, f) == {<<p, q, r, s, t, u, v, w>> : p \in a, q \in b, r \in c, s \in d, t \in e, u \in f, v \in f, w \in f}
OneDuration(n) == {<<0, 0, 1, 0, 5, 7, 0, 30>>}
EdgeDurations(n) == Units({0, 3}, {0, 364}, {0, 23}, {0, 10}, {0, 59}, {0, 1, 10, 999})
MoreDurations(n) == Units({0, 1, 291}, {0, 1, 364}, {0, 1, 23}, {0, 1, 59}, {0, 1, 59}, {0, 1, 10, 100, 999})
None(n) == {}

R(n, s) == IF n >= 0 THEN RandomElement(s) ELSE 0
RandomPoints(n) == {P3(R(n, -106000..106000), R(n, 0..86399), R(n, {0, 1, 999, 1000, 5000000, 999999999, 7, 123456789} \cup {R(n, 0..999999999)})),
                    P3(R(n, -800..30000), R(n, 0..86399), R(n, 0..999999999))}
RandomTimes(n) == {[d |-> R(n, -106000..106000), s |-> R(n, 0..86399)], [d |-> R(n, -800..30000), s |-> R(n, 0..86399)]}
RandomOffsets(n) == {R(n, 1..31), R(n, 1..366)}
Some(n, s) == IF R(n, 0..2) = 0 THEN 0 ELSE R(n, s)
RandomDurations(n) == {<<Some(n, 0..290), Some(n, 0..364), Some(n, 0..23), Some(n, 0..59), Some(n, 0..59), Some(n, 0..999), Some(n, 0..999), Some(n, 0..999)>>}
=============================================================================
