-------------------------------- MODULE Cal --------------------------------
(* The proleptic Gregorian calendar over integers: a date is the number of days since 2000-01-01 (a
   Saturday), a timestamp the number of seconds since 2000-01-01T00:00:00.  Weekdays: 0 = Monday .. 6 = Sunday. *)
EXTENDS Integers, Sequences

DAYSECS == 86400

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysInMonth(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31

\* number of days from 2000-01-01 to y-m-d (any d: overflows into the neighbouring months)
DaysFromCivil(y, m, d) ==
  LET yy  == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp  == IF m > 2 THEN m - 3 ELSE m + 9
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468 - 10957

Civil(n) ==
  LET z   == n + 10957 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      d   == doy - (153 * mp + 2) \div 5 + 1
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN [y |-> y, m |-> m, d |-> d]

Weekday(n) == (n + 5) % 7          \* 2000-01-01 was a Saturday (5)

MonthIndex(n) == LET c == Civil(n) IN c.y * 12 + c.m - 1
FirstOfMonthIndex(k) == DaysFromCivil(k \div 12, (k % 12) + 1, 1)
\* n moved by k months, the day clipped to the end of the target month
AddMonths(n, k) ==
  LET c == Civil(n)
      t == MonthIndex(n) + k
      y == t \div 12
      m == (t % 12) + 1
      dm == DaysInMonth(y, m)
  IN DaysFromCivil(y, m, IF c.d > dm THEN dm ELSE c.d)

Units == {"second", "minute", "hour", "day", "week", "month", "quarter", "year"}

\* first day of the unit that contains day n; ws = first day of the week
StartDay(n, u, ws) ==
  CASE u = "day" -> n
    [] u = "week" -> n - ((Weekday(n) - ws) % 7)
    [] u = "month" -> FirstOfMonthIndex(MonthIndex(n))
    [] u = "quarter" -> FirstOfMonthIndex((MonthIndex(n) \div 3) * 3)
    [] u = "year" -> FirstOfMonthIndex((MonthIndex(n) \div 12) * 12)

\* n moved by k units (day arithmetic, month ends clipped)
AddUnits(n, u, k) ==
  CASE u = "day" -> n + k
    [] u = "week" -> n + 7 * k
    [] u = "month" -> AddMonths(n, k)
    [] u = "quarter" -> AddMonths(n, 3 * k)
    [] u = "year" -> AddMonths(n, 12 * k)

\* last day of the unit that contains day n
EndDay(n, u, ws) == AddUnits(StartDay(n, u, ws), u, 1) - 1

DayOf(s) == s \div DAYSECS
TimeOfDay(s) == s % DAYSECS

\* timestamps
TruncTs(s, u, ws) ==
  CASE u = "second" -> s
    [] u = "minute" -> s - (s % 60)
    [] u = "hour" -> s - (s % 3600)
    [] OTHER -> StartDay(DayOf(s), u, ws) * DAYSECS

\* number of boundaries of unit u between a and b (the meaning of DATEDIFF in most warehouses)
BoundaryDiff(a, b, u, ws) ==
  CASE u = "second" -> b - a
    [] u = "minute" -> b \div 60 - a \div 60
    [] u = "hour" -> b \div 3600 - a \div 3600
    [] u = "day" -> DayOf(b) - DayOf(a)
    [] u = "week" -> (StartDay(DayOf(b), "week", ws) - StartDay(DayOf(a), "week", ws)) \div 7
    [] u = "month" -> MonthIndex(DayOf(b)) - MonthIndex(DayOf(a))
    [] u = "quarter" -> MonthIndex(DayOf(b)) \div 3 - MonthIndex(DayOf(a)) \div 3
    [] u = "year" -> MonthIndex(DayOf(b)) \div 12 - MonthIndex(DayOf(a)) \div 12

\* number of whole units between a and b
RECURSIVE CompleteDiff(_, _, _)
CompleteDiff(a, b, u) ==
  IF b < a THEN -CompleteDiff(b, a, u)
  ELSE CASE u = "second" -> b - a
         [] u = "minute" -> (b - a) \div 60
         [] u = "hour" -> (b - a) \div 3600
         [] u = "day" -> (b - a) \div DAYSECS
         [] u = "week" -> (b - a) \div (7 * DAYSECS)
         [] OTHER ->
              LET mm == MonthIndex(DayOf(b)) - MonthIndex(DayOf(a))
                  full == IF AddMonths(DayOf(a), mm) * DAYSECS + TimeOfDay(a) > b THEN mm - 1 ELSE mm
              IN CASE u = "month" -> full [] u = "quarter" -> full \div 3 [] u = "year" -> full \div 12

DayOfYear(n) == n - FirstOfMonthIndex((MonthIndex(n) \div 12) * 12) + 1
=============================================================================
