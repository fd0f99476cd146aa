------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Dates.  Three kinds of dates, as the program accepts them:              *)
(*   "f"  floats (years),  "d"  datetime.date,  "b"  BusinessDate.         *)
(* "d" and "b" are represented by their ordinal day number.  Tenors are    *)
(* strings "3M" for "b" and numbers for "f" (years) and "d" (days).        *)
(***************************************************************************)
EXTENDS RealNum

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DaysBeforeYear(y) == LET p == y - 1 IN p * 365 + p \div 4 - p \div 100 + p \div 400
MonthStart == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(y, m) == MonthStart[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
Ordinal(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d

YearOf(n) ==
    LET g == (n * 400) \div 146097
        c == {y \in (g - 1)..(g + 2) : y >= 1 /\ DaysBeforeYear(y) < n}
    IN CHOOSE y \in c : \A z \in c : z <= y
Civil(n) ==
    LET y == YearOf(n)
        r == n - DaysBeforeYear(y)
        m == CHOOSE m \in 1..12 : DaysBeforeMonth(y, m) < r /\ r <= DaysBeforeMonth(y, m) + MonthLen(y, m)
    IN <<y, m, r - DaysBeforeMonth(y, m)>>

\* end of month clipping
AddMonths(n, k) ==
    LET c == Civil(n)
        t == c[1] * 12 + (c[2] - 1) + k
        y == t \div 12
        m == (t % 12) + 1
    IN Ordinal(y, m, IMin(c[3], MonthLen(y, m)))

Weekday(n) == (n + 6) % 7                 \* 0 = Monday

Tenor == [ t \in {"0D", "1D", "1d", "2D", "7D", "1W", "2W", "1M", "2M", "3M", "6M", "9M", "12M",
                  "18M", "1Y", "1y", "2Y", "3Y", "4Y", "5Y", "10Y", "10y", "20Y"} |->
    CASE t = "0D" -> <<0, 0>>
      [] t = "1D" \/ t = "1d" -> <<0, 1>>
      [] t = "2D" -> <<0, 2>>
      [] t = "7D" \/ t = "1W" -> <<0, 7>>
      [] t = "2W" -> <<0, 14>>
      [] t = "1M" -> <<1, 0>>
      [] t = "2M" -> <<2, 0>>
      [] t = "3M" -> <<3, 0>>
      [] t = "6M" -> <<6, 0>>
      [] t = "9M" -> <<9, 0>>
      [] t = "12M" \/ t = "1Y" \/ t = "1y" -> <<12, 0>>
      [] t = "18M" -> <<18, 0>>
      [] t = "2Y" -> <<24, 0>>
      [] t = "3Y" -> <<36, 0>>
      [] t = "4Y" -> <<48, 0>>
      [] t = "5Y" -> <<60, 0>>
      [] t = "10Y" \/ t = "10y" -> <<120, 0>>
      [] t = "20Y" -> <<240, 0>> ]

IsTenorName(t) == t \in DOMAIN Tenor
Move(k, x, ten, sgn) ==
    IF IsTenorName(ten)
    THEN Real(AddMonths(ToInt(x), sgn * Tenor[ten][1]) + sgn * Tenor[ten][2])
    ELSE IF sgn = 1 THEN Add(x, ten) ELSE Sub(x, ten)
Plus(k, x, ten) == Move(k, x, ten, 1)
Minus(k, x, ten) == Move(k, x, ten, -1)

-----------------------------------------------------------------------------
(* Day counts.  "none" is the default of the program: the difference for   *)
(* floats and actual days over 365.25 for dates.  The other names are day  *)
(* count functions which the harness passes to the program.                *)
Thirty360(s, e) ==
    LET a == Civil(ToInt(s))
        b == Civil(ToInt(e))
        d1 == IMin(a[3], 30)
        d2 == IF d1 = 30 THEN IMin(b[3], 30) ELSE b[3]
    IN Div(Real((b[1] - a[1]) * 360 + (b[2] - a[2]) * 30 + (d2 - d1)), "360")

DayCount(k, dc, s, e) ==
    CASE dc = "none" -> IF k = "f" THEN Sub(e, s) ELSE Div(Sub(e, s), "365.25")
      [] dc = "act360" -> Div(Sub(e, s), "360")
      [] dc = "act365" -> Div(Sub(e, s), "365")
      [] dc = "half" -> Div(Sub(e, s), "2")
      [] dc = "d30360" -> Thirty360(s, e)
=============================================================================
