------------------------------ MODULE TimeDim ------------------------------
(* Time dimensions: the bucket, number or name that a timeframe gives to an instant, and the number of units a
   duration counts.  Instants are UTC seconds since 2000-01-01; a bucket is expressed in local seconds. *)
EXTENDS Cal, Val

\* ---- timezones (rules in force 2007 - 2037)
NthWeekday(y, m, wd, k) ==   \* the k-th weekday wd (0 = Monday) of the month; k = 0: the last one
  LET f == DaysFromCivil(y, m, 1)
      first == f + ((wd - Weekday(f)) % 7)
      e == f + DaysInMonth(y, m) - 1
      last == e - ((Weekday(e) - wd) % 7)
  IN IF k = 0 THEN last ELSE first + 7 * (k - 1)
ZoneRec(z) ==
  CASE z = "UTC" -> [std |-> 0, rule |-> "none"]
    [] z = "America/New_York" -> [std |-> -5 * 3600, rule |-> "us"]
    [] z = "America/Los_Angeles" -> [std |-> -8 * 3600, rule |-> "us"]
    [] z = "Europe/Berlin" -> [std |-> 3600, rule |-> "eu"]
    [] z = "Europe/London" -> [std |-> 0, rule |-> "eu"]
    [] z = "Australia/Sydney" -> [std |-> 10 * 3600, rule |-> "au"]
    [] z = "Asia/Tokyo" -> [std |-> 9 * 3600, rule |-> "none"]
    [] z = "Asia/Kolkata" -> [std |-> 19800, rule |-> "none"]
    [] z = "Pacific/Kiritimati" -> [std |-> 14 * 3600, rule |-> "none"]
    [] z = "Pacific/Pago_Pago" -> [std |-> -11 * 3600, rule |-> "none"]
Zones == {"UTC", "America/New_York", "America/Los_Angeles", "Europe/Berlin", "Europe/London", "Australia/Sydney",
          "Asia/Tokyo", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago"}
Summer(rec, s) ==
  LET y == Civil(DayOf(s)).y
  IN CASE rec.rule = "none" -> FALSE
       [] rec.rule = "us" -> /\ s >= NthWeekday(y, 3, 6, 2) * DAYSECS + 7200 - rec.std
                             /\ s < NthWeekday(y, 11, 6, 1) * DAYSECS + 3600 - rec.std
       [] rec.rule = "eu" -> /\ s >= NthWeekday(y, 3, 6, 0) * DAYSECS + 3600
                             /\ s < NthWeekday(y, 10, 6, 0) * DAYSECS + 3600
       [] rec.rule = "au" -> ~(/\ s >= NthWeekday(y, 4, 6, 1) * DAYSECS + 7200 - rec.std
                               /\ s < NthWeekday(y, 10, 6, 1) * DAYSECS + 7200 - rec.std)
Local(z, s) == LET r == ZoneRec(z) IN s + r.std + (IF Summer(r, s) THEN 3600 ELSE 0)

\* ---- numbers and names
Shifted(l, off) == AddMonths(DayOf(l), off) * DAYSECS + TimeOfDay(l)
IsoWeek(n) ==   \* ISO 8601: the week belongs to the year of its Thursday
  LET th == StartDay(n, "week", 0) + 3
      jan1 == StartDay(th, "year", 0)
  IN (th - jan1) \div 7 + 1
IsoYear(n) == Civil(StartDay(n, "week", 0) + 3).y
\* a week that starts on ws has the number of the Monday in it
WeekNumber(n, ws) == LET st == StartDay(n, "week", ws) IN IsoWeek(st + ((7 - ws) % 7))
WeekOfMonth(n, ws) == (StartDay(n, "week", ws) - StartDay(StartDay(n, "month", 0), "week", ws)) \div 7 + 1

MonthNames == <<<<74,97,110,117,97,114,121>>, <<70,101,98,114,117,97,114,121>>, <<77,97,114,99,104>>, <<65,112,114,105,108>>, <<77,97,121>>, <<74,117,110,101>>, <<74,117,108,121>>, <<65,117,103,117,115,116>>, <<83,101,112,116,101,109,98,101,114>>, <<79,99,116,111,98,101,114>>, <<78,111,118,101,109,98,101,114>>, <<68,101,99,101,109,98,101,114>>>>
DayNames == <<<<77,111,110,100,97,121>>, <<84,117,101,115,100,97,121>>, <<87,101,100,110,101,115,100,97,121>>, <<84,104,117,114,115,100,97,121>>, <<70,114,105,100,97,121>>, <<83,97,116,117,114,100,97,121>>, <<83,117,110,100,97,121>>>>
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Text(cs) == <<1>> \o cs
NameOf(full, style) ==
  CASE style = "short" -> Text(SubSeq(full, 1, 3))
    [] style = "full" -> Text(full)
    [] style = "upper" -> Text([i \in 1..Len(full) |-> Upper(full[i])])

\* ---- the value of timeframe tf; l: local seconds; p: [ws, off, month |-> style, day |-> style, db]
Value(tf, l, p) ==
  LET n == DayOf(l)
      fn == DayOf(Shifted(l, p.off))
  IN CASE tf \in {"raw", "time", "second"} -> Ts(l)
       [] tf \in {"minute", "hour", "week", "month", "quarter", "year"} -> Ts(TruncTs(l, tf, p.ws))
       [] tf = "date" -> Ts(TruncTs(l, "day", p.ws))
       [] tf = "fiscal_month" -> Ts(TruncTs(Shifted(l, p.off), "month", 0))
       [] tf = "fiscal_quarter" -> Ts(TruncTs(Shifted(l, p.off), "quarter", 0))
       [] tf = "fiscal_year" -> Ts(TruncTs(Shifted(l, p.off), "year", 0))
       [] tf \in {"week_index", "week_of_year"} -> Num(WeekNumber(n, p.ws))
       [] tf = "week_of_month" -> Num(WeekOfMonth(n, p.ws))
       [] tf \in {"month_of_year_index", "month_index"} -> Num(Civil(n).m)
       [] tf \in {"fiscal_month_of_year_index", "fiscal_month_index"} -> Num(Civil(fn).m)
       [] tf \in {"month_of_year", "month_name"} -> NameOf(MonthNames[Civil(n).m], p.month)
       [] tf = "quarter_of_year" -> Num((Civil(n).m + 2) \div 3)
       [] tf = "fiscal_quarter_of_year" -> Num((Civil(fn).m + 2) \div 3)
       [] tf = "hour_of_day" -> Num(TimeOfDay(l) \div 3600)
       [] tf = "day_of_week" -> NameOf(DayNames[Weekday(n) + 1], p.day)
       [] tf = "day_of_month" -> Num(Civil(n).d)
       [] tf = "day_of_year" -> Num(DayOfYear(n))

\* ---- durations; kind: "boundary" (units begun) or "complete" (units elapsed)
Count(kind, a, b, u) == IF kind = "boundary" THEN BoundaryDiff(a, b, u, 0) ELSE CompleteDiff(a, b, u)

\* ---- what the recorded defects give instead (known_findings.jsonl)
SundayWeek(n) ==   \* weeks begin on Sunday; days before the first Sunday are in week 0
  LET jan1 == StartDay(n, "year", 0)
      sun1 == jan1 + ((6 - Weekday(jan1)) % 7)
  IN IF n < sun1 THEN 0 ELSE (n - sun1) \div 7 + 1
IsoWeekOfMonth(n) == IsoWeek(n) - IsoWeek(StartDay(n, "month", 0)) + 1
DefectValue(tf, l, p) ==
  LET n == DayOf(l) up == (7 - p.ws) % 7
  IN CASE p.db = "mssql" /\ tf = "week" -> Ts((StartDay(n + up + 1, "week", 0) - up) * DAYSECS)
       [] p.db = "bigquery" /\ tf = "week" -> Ts(StartDay(n, "week", (p.ws + 6) % 7) * DAYSECS)
       [] p.db = "bigquery" /\ tf \in {"week_index", "week_of_year"} -> Num(SundayWeek(n + up))
       [] p.db = "bigquery" /\ tf = "week_of_month" -> Num(SundayWeek(n) - SundayWeek(StartDay(n, "month", 0)) + 1)
       [] p.db # "bigquery" /\ tf = "week_of_month" -> Num(IsoWeekOfMonth(n))
       [] OTHER -> Value(tf, l, p)
AgePart(a, b) ==   \* PostgreSQL AGE(b, a), a <= b: years, months, days, hours, minutes, seconds
  LET mm == CompleteDiff(a, b, "month")
      base == AddMonths(DayOf(a), mm) * DAYSECS + TimeOfDay(a)
      r == b - base
  IN <<mm \div 12, mm % 12, r \div DAYSECS, (r % DAYSECS) \div 3600, (r % 3600) \div 60, r % 60>>
DefectCount(db, a, b, u) ==
  IF db = "postgres" THEN
    IF b < a THEN -1000001
    ELSE LET g == AgePart(a, b)
         IN (CASE u = "day" -> g[3]
              [] u = "week" -> g[3] \div 7
              [] u = "hour" -> g[3] * 24 + g[4]
              [] u = "minute" -> g[3] * 24 + g[4] * 60 + g[5]
              [] u = "second" -> g[3] * 24 + g[4] * 60 + g[5] * 60 + g[6]
              [] OTHER -> CompleteDiff(a, b, u))
  ELSE IF db = "mssql" /\ u = "week" THEN BoundaryDiff(a, b, "week", 6)
  ELSE IF db = "bigquery" /\ u = "year" THEN IsoYear(DayOf(b)) - IsoYear(DayOf(a))
  ELSE -1000001

(* ---- judging.  obs:
   mode "value":  tf, z, p, rows: <<[s, v]>> (s = NONE when the source is NULL), status
   mode "dur":    u, kind, db, rows: <<[a, b, v]>>
   mode "pick":   tf, z, p, f, v: a filter on the timeframe; rows: <<[s, in]>> *)
NONE == -2000000000
Cmp(f, x, v) == CASE f = "eq" -> Same(x, v) [] f = "ne" -> ~Same(x, v) [] f = "lt" -> Less(x, v) [] f = "ge" -> ~Less(x, v)
WantV(o, s) == IF s = NONE THEN NULL ELSE Value(o.tf, Local(o.z, s), o.p)
InvalidMonth == <<73, 110, 118, 97, 108, 105, 100, 32, 77, 111, 110, 116, 104>>
InvalidDay == <<73, 110, 118, 97, 108, 105, 100, 32, 68, 97, 121>>
DefNull(o) == IF o.p.db # "druid" THEN NULL
              ELSE IF o.tf \in {"month_of_year", "month_name"} THEN Text(InvalidMonth)
              ELSE IF o.tf = "day_of_week" THEN Text(InvalidDay) ELSE NULL
DefV(o, s) == IF s = NONE THEN DefNull(o) ELSE DefectValue(o.tf, Local(o.z, s), o.p)
WantD(o, r) == IF r[1] = NONE \/ r[2] = NONE THEN NULL ELSE Num(Count(o.kind, r[1], r[2], o.u))
DefD(o, r) == IF r[1] = NONE \/ r[2] = NONE THEN NULL
              ELSE LET d == DefectCount(o.db, r[1], r[2], o.u) IN IF d = -1000001 THEN WantD(o, r) ELSE Num(d)
Pick(o, x) == IF IsNull(x) THEN 0 ELSE IF Cmp(o.f, x, o.v) THEN 1 ELSE 0
JudgeTime(o) ==
  IF o.status # "ok" THEN "status:" \o o.status
  ELSE CASE o.mode = "value" ->
              (IF \A i \in 1..Len(o.rows) : o.rows[i][2] = WantV(o, o.rows[i][1]) THEN "ok"
               ELSE IF \A i \in 1..Len(o.rows) : o.rows[i][2] = DefV(o, o.rows[i][1]) THEN "defect:" \o o.tf
               ELSE "value of " \o o.tf)
         [] o.mode = "dur" ->
              (IF \A i \in 1..Len(o.rows) : o.rows[i][3] = WantD(o, o.rows[i]) THEN "ok"
               ELSE IF \A i \in 1..Len(o.rows) : o.rows[i][3] = DefD(o, o.rows[i]) THEN "defect:" \o o.u \o "s"
               ELSE "duration in " \o o.u \o "s")
         [] o.mode = "pick" ->
              (IF \A i \in 1..Len(o.rows) : o.rows[i][2] = Pick(o, WantV(o, o.rows[i][1])) THEN "ok"
               ELSE IF \A i \in 1..Len(o.rows) : o.rows[i][2] = Pick(o, DefV(o, o.rows[i][1])) THEN "defect:" \o o.tf
               ELSE "filter on " \o o.tf)
=============================================================================
