-------------------------------- MODULE Times --------------------------------
(***************************************************************************)
(* Time values (xdb.Time): an instant to the millisecond, whatever made it *)
(* (a number of milliseconds, a time in any zone, a text, JSON, a column,  *)
(* a sum) and whatever it is turned into.                                  *)
(*                                                                         *)
(* An instant is [d, m, ns]: days since 1970-01-01, milliseconds of the    *)
(* day, nanoseconds of the millisecond.  The zero time is the first        *)
(* instant of the year 1.  Texts are made and read here, digit by digit.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Walk, Record

VARIABLES v,      \* the value, [d, m]
          sub,    \* it may have more than milliseconds (a column's time)
          ops, n, fin
vars == <<v, sub, ops, n, fin>>

DayMs == 86400000
ZeroDay == -719162
LastDay == 2932895
Zero == [d |-> ZeroDay, m |-> 0]

------------------------------------------------------------------------------
\* the calendar
Civil(day) ==
  LET z == day + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      mon == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF mon <= 2 THEN 1 ELSE 0), mo |-> mon, da |-> doy - (153 * mp + 2) \div 5 + 1]
Days(c) ==
  LET y == IF c.mo <= 2 THEN c.y - 1 ELSE c.y
      era == y \div 400
      yoe == y - era * 400
      doy == (153 * (IF c.mo > 2 THEN c.mo - 3 ELSE c.mo + 9) + 2) \div 5 + c.da - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

\* texts
RECURSIVE Pad(_, _)
Pad(x, w) == IF w = 0 THEN "" ELSE Pad(x \div 10, w - 1) \o ToString(x % 10)
DateText(day) == LET c == Civil(day) IN Pad(c.y, 4) \o "-" \o Pad(c.mo, 2) \o "-" \o Pad(c.da, 2)
ClockText(m) == Pad(m \div 3600000, 2) \o ":" \o Pad((m \div 60000) % 60, 2) \o ":" \o Pad((m \div 1000) % 60, 2)
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 5 -> 100000
              [] k = 6 -> 1000000 [] k = 7 -> 10000000 [] k = 8 -> 100000000 [] OTHER -> 1000000000
\* k digits of the second's fraction
Frac(m, ns, k) == IF k = 0 THEN "" ELSE "." \o Pad(((m % 1000) * 1000000 + ns) \div Pow10(9 - k), k)
\* the value's own form: milliseconds without zeros at the end
OwnFrac(m) == LET f == m % 1000 IN IF f = 0 THEN "" ELSE IF f % 100 = 0 THEN Frac(m, 0, 1) ELSE IF f % 10 = 0 THEN Frac(m, 0, 2) ELSE Frac(m, 0, 3)
OwnText(x) == IF x = Zero THEN "" ELSE DateText(x.d) \o "T" \o ClockText(x.m) \o OwnFrac(x.m) \o "Z"
ZoneText(z) == IF z = 0 THEN "Z" ELSE (IF z < 0 THEN "-" ELSE "+") \o Pad((IF z < 0 THEN -z ELSE z) \div 60, 2) \o ":" \o Pad((IF z < 0 THEN -z ELSE z) % 60, 2)
\* days and milliseconds, the second between 0 and a day
Norm(d, m) == [d |-> d + m \div DayMs, m |-> m % DayMs]
\* an instant in a zone of z minutes, with k digits of the fraction
Rfc(x, ns, z, k) == LET l == Norm(x.d, x.m + z * 60000) IN DateText(l.d) \o "T" \o ClockText(l.m) \o Frac(l.m, ns, k) \o ZoneText(z)
\* what is left of an instant with k digits, to the millisecond
Cut(x, k) == [x EXCEPT !.m = IF k >= 3 THEN @ ELSE @ - (@ % Pow10(3 - k))]
SecondsOf(x) == Cut(x, 0)

------------------------------------------------------------------------------
Exp(x) == [d |-> x.d, m |-> x.m, text |-> OwnText(x), zero |-> x = Zero]
\* the value becomes x
Becomes(x, s, op) ==
  /\ v' = x /\ sub' = s /\ n' = n + 1
  /\ ops' = IF Record THEN Append(ops, op @@ [exp |-> Exp(x)]) ELSE ops
  /\ UNCHANGED fin
Whole(x) == x.d > ZeroDay /\ x.d < LastDay

\* x: instant, ns: nanoseconds of its millisecond, z: a zone, k: digits
Millis(x) == Becomes(x, FALSE, [op |-> "millis", d |-> x.d, m |-> x.m])
FromTime(x, ns, z) == Becomes(x, FALSE, [op |-> "utc", d |-> x.d, m |-> x.m, ns |-> ns, z |-> z])
ScanTime(x, ns, z) == Becomes(x, ns # 0, [op |-> "scan", d |-> x.d, m |-> x.m, ns |-> ns, z |-> z])
FromText(w, x, ns, z, k) == Becomes(Cut(x, k), w = "json" /\ k > 3, [op |-> w, t |-> Rfc(x, ns, z, k)])
DateTime(w, x) == Becomes(SecondsOf(x), FALSE, [op |-> w, t |-> DateText(x.d) \o " " \o ClockText(x.m)])
DateOnly(w, x) == Becomes([x EXCEPT !.m = 0], FALSE, [op |-> w, t |-> DateText(x.d)])
Nothing(w) == Becomes(Zero, FALSE, [op |-> w])                  \* scannull, jsonempty, parseempty, scanempty
\* texts that are no times: the value stays (a scan fails, a parse gives the zero time, looked at apart)
Bad(t) == Becomes(v, sub, [op |-> "bad", t |-> t])
\* the value goes through its own text, JSON, a column, its milliseconds
Through(w) == (w # "time" \/ v # Zero) /\ Becomes(v, sub /\ w \in {"tojson", "tocolumn", "copy"}, [op |-> w])
\* a duration of days, milliseconds and nanoseconds
Sum(x, dd, dm, dn) == LET e == Norm(x.d + dd, x.m + dm) IN IF dn >= 0 THEN e ELSE Norm(e.d, e.m - 1)
Add(dd, dm, dn) == /\ v # Zero /\ (sub => dn = 0)
                   /\ Whole(Sum(v, dd, dm, dn))
                   /\ Becomes(Sum(v, dd, dm, dn), FALSE, [op |-> "add", dd |-> dd, dm |-> dm, dn |-> dn])

------------------------------------------------------------------------------
Pick(S, k) == RandomElement(IF n < 0 \/ k < 0 THEN {} ELSE S)
\* days that matter: ends of months, leap days, years and the epoch, and any day
EdgeDays == {Days([y |-> y, mo |-> c[1], da |-> c[2]]) : y \in {1900, 1970, 2000, 2023, 2024, 2100}, c \in {<<1, 1>>, <<2, 28>>, <<3, 1>>, <<12, 31>>}}
            \cup {Days([y |-> 2024, mo |-> 2, da |-> 29]), -1, 0, ZeroDay + 1, LastDay - 1}
RandDay == IF Pick(1..2, 1) = 1 THEN Pick(EdgeDays, 1)
           ELSE Pick({1, 10, 100, 1000}, 1) * Pick(0..700, 1) + Pick(0..999, 2) - (IF Pick(1..2, 1) = 1 THEN 719000 ELSE 0)
RandMs == LET h == Pick({0, 43200000, 86399000, 3600000 * Pick(0..23, 1) + 60000 * Pick(0..59, 1) + 1000 * Pick(0..59, 1)}, 1)
          IN h + Pick({0, 1, 5, 10, 99, 100, 120, 123, 500, 900, 990, 999}, 1)
RandNs == Pick({0, 0, 1, 999, 1000, 500000, 999999, 123456, 120000}, 1)
Zones == {0, 0, 60, -60, 330, 345, -210, 840, -720, -30}
Bads == {"x", "2024-13-01", "2024-02-30", "2023-02-29T00:00:00Z", "2024-01-01T24:00:01Z", "yesterday", "2024-01-01T00:60:00Z", " ", "2024-01-0x", "2024-06-31 10:00:00"}
Texts == {"parse", "scantext", "json"}
RandText(w, x) ==
  \E f \in {Pick(1..6, 1)}, ns \in {RandNs}, z \in {Pick(Zones, 1)}, k \in {Pick(0..9, 1)} :
    IF f = 1 /\ w # "json" THEN DateTime(w, x) ELSE IF f = 2 /\ w # "json" THEN DateOnly(w, x) ELSE FromText(w, x, ns, z, k)
Step ==
  \E c \in {Pick(1..20, 1)}, day \in {RandDay}, ms \in {RandMs} :
  LET x == [d |-> IF day <= ZeroDay \/ day >= LastDay THEN 19000 ELSE day, m |-> ms] IN
  CASE c <= 2 -> Millis(x)
    [] c <= 4 -> \E ns \in {RandNs}, z \in {Pick(Zones, 1)} : FromTime(x, ns, z)
    [] c <= 6 -> \E ns \in {RandNs}, z \in {Pick(Zones, 1)} : ScanTime(x, ns, z)
    [] c <= 11 -> \E w \in {Pick(Texts, 1)} : RandText(w, x)
    [] c = 12 -> \E w \in {Pick({"scannull", "jsonempty", "parseempty", "scanempty"}, 1)} : Nothing(w)
    [] c = 13 -> \E t \in {Pick(Bads, 1)} : Bad(t)
    [] c <= 16 -> \E w \in {Pick({"totext", "tojson", "tocolumn", "tomillis", "copy", "scanown"}, 1)} : Through(w)
    [] OTHER -> \E e \in {<<Pick({0, 0, 1, -1, 365, -366, 30000}, 1), Pick({0, 1, -1, 999, -1000, 86399999, -86400000, 3600000}, 1), Pick({0, 0, 1, -1, 999999, -999999, 500000}, 1)>>} :
                IF v # Zero /\ (sub => e[3] = 0) /\ Whole(Sum(v, e[1], e[2], e[3])) /\ (e[3] = 0 \/ (e[1] >= 0 /\ e[2] >= 0 /\ e[3] > 0) \/ (e[1] <= 0 /\ e[2] <= 0 /\ e[3] < 0))
                THEN Add(e[1], e[2], e[3]) ELSE Millis(x)

\* every kind of call at the edges
EnumX == {[d |-> q, m |-> m] : q \in {Days([y |-> 2024, mo |-> 2, da |-> 29]), -1, 0, ZeroDay + 1}, m \in {0, 1, 120, 43200500, 86399999}}
EnumStep ==
  \/ \E x \in EnumX : \/ Millis(x)
                      \/ \E ns \in {0, 999999}, z \in {0, 345, -720} : FromTime(x, ns, z) \/ ScanTime(x, ns, z)
                      \/ \E w \in Texts, z \in {0, 330, -30}, k \in {0, 1, 3, 4, 6, 8, 9} : FromText(w, x, 987654, z, k)
                      \/ \E w \in Texts \ {"json"} : DateTime(w, x) \/ DateOnly(w, x)
  \/ \E w \in {"scannull", "jsonempty", "parseempty", "scanempty"} : Nothing(w)
  \/ \E t \in Bads : Bad(t)
Second == \/ \E w \in {"totext", "tojson", "tocolumn", "tomillis", "copy", "scanown"} : Through(w)
          \/ \E e \in {<<0, 1, 0>>, <<0, -1, 0>>, <<1, 0, 1>>, <<-1, 0, -1>>, <<0, 86399999, 999999>>, <<366, 0, 0>>} : Add(e[1], e[2], e[3])
          \/ Nothing("scannull") \/ Nothing("jsonempty")

Init == v = Zero /\ sub = FALSE /\ ops = <<>> /\ n = 0 /\ fin = FALSE
Next == \/ ~fin /\ n < Depth /\ (IF Walk THEN Step ELSE IF n = 0 THEN EnumStep ELSE Second)
        \/ ~fin /\ n = Depth /\ fin' = TRUE /\ (Record => PrintT("BEH " \o ToJson(ops))) /\ UNCHANGED <<v, sub, ops, n>>
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Sane == v = Zero \/ (v.d \in (ZeroDay + 1)..LastDay /\ v.m \in 0..(DayMs - 1))
\* the calendar has an inverse, and its days follow each other
Calendar == LET c == Civil(v.d) IN
            /\ Days(c) = v.d /\ c.mo \in 1..12 /\ c.da \in 1..31
            /\ LET t == Civil(v.d + 1) IN \/ t.da = c.da + 1 /\ t.mo = c.mo /\ t.y = c.y
                                          \/ t.da = 1 /\ t.mo = c.mo + 1 /\ t.y = c.y
                                          \/ t.da = 1 /\ t.mo = 1 /\ t.y = c.y + 1
\* other instants have other texts
TextOfEach == \A x \in {Zero, Norm(v.d, v.m + 1), Norm(v.d, v.m - 1), Norm(v.d, v.m + 1000), Norm(v.d + 1, v.m)} : x # v => OwnText(x) # OwnText(v)
\* a text in any zone names the same instant
SameInstant == \A z \in {0, 330, -720} : LET l == Norm(v.d, v.m + z * 60000) IN Norm(l.d, l.m - z * 60000) = v
=============================================================================
