------------------------------ MODULE DateExpr ------------------------------
(* Date expressions of the filter language and the interval each one selects, given the current day and the first
   day of the week.  An interval is [lo, hi] in seconds since 2000-01-01 (local time), both ends included;
   -1 / OPEN mark an open end.
     [k |-> "today"/"yesterday"]             [k |-> "this"/"last", u]
     [k |-> "n", n, u]                        the last n units, the current one included
     [k |-> "ago", n, u]                      the unit n units before the current one
     [k |-> "todate", n, u]                   from the start of the unit n units before the current one, for as many
                                              complete days as the current unit has had (the first day counts)
     [k |-> "agofor", n, u, m, v]             from the start of the unit n units ago, to the end of the v that lies
                                              m - 1 v later
     [k |-> "until", a, b]                    a, b expressions or [k |-> "day", d]
     [k |-> "after"/"before"/"on", d]         d a day number                                                     *)
EXTENDS Cal

OPEN == 2000000000
First(n) == n * DAYSECS
Last(n) == n * DAYSECS + DAYSECS - 1
Iv(a, b) == [lo |-> First(a), hi |-> Last(b)]

StartAgo(t, ws, u, n) == StartDay(AddUnits(t, u, -n), u, ws)
EndAgo(t, ws, u, n) == EndDay(AddUnits(t, u, -n), u, ws)

RECURSIVE Interval(_, _, _)
Interval(e, t, ws) ==
  CASE e.k = "today" -> Iv(t, t)
    [] e.k = "yesterday" -> Iv(t - 1, t - 1)
    [] e.k = "this" -> Iv(StartAgo(t, ws, e.u, 0), EndAgo(t, ws, e.u, 0))
    [] e.k = "last" -> Iv(StartAgo(t, ws, e.u, 1), EndAgo(t, ws, e.u, 1))
    [] e.k = "n" -> Iv(StartAgo(t, ws, e.u, e.n - 1), EndAgo(t, ws, e.u, 0))
    [] e.k = "ago" -> Iv(StartAgo(t, ws, e.u, e.n), EndAgo(t, ws, e.u, e.n))
    [] e.k = "todate" ->
         LET s == StartAgo(t, ws, e.u, e.n)
             gone == t - StartAgo(t, ws, e.u, 0)
         IN Iv(s, s + (IF gone > 0 THEN gone - 1 ELSE 0))
    [] e.k = "agofor" ->
         LET s == StartAgo(t, ws, e.u, e.n) IN Iv(s, EndDay(AddUnits(s, e.v, e.m - 1), e.v, ws))
    [] e.k = "day" -> [lo |-> First(e.d), hi |-> First(e.d)]
    [] e.k = "on" -> [lo |-> First(e.d), hi |-> First(e.d)]
    [] e.k = "after" -> [lo |-> First(e.d), hi |-> OPEN]
    [] e.k = "before" -> [lo |-> -OPEN, hi |-> First(e.d)]
    [] e.k = "until" -> [lo |-> Interval(e.a, t, ws).lo, hi |-> Interval(e.b, t, ws).hi]

Selects(e, t, ws, s) == LET v == Interval(e, t, ws) IN v.lo <= s /\ s <= v.hi

\* does the upper end come from an interval counted in quarters?
RECURSIVE QuarterEnd(_)
QuarterEnd(e) ==
  CASE e.k \in {"this", "last", "n", "ago"} -> e.u = "quarter"
    [] e.k = "until" -> QuarterEnd(e.b)
    [] OTHER -> FALSE
\* the same expression with the last quarter cut off at the first instant of its last day
CutHi(e, t, ws) == LET v == Interval(e, t, ws) IN [v EXCEPT !.hi = @ - (DAYSECS - 1)]

\* obs: [e, t, ws, lo, hi]  (lo/hi +-OPEN when absent), or [e, t, ws, all, sel] for timestamps selected by a query
JudgeEnds(o) ==
  LET v == Interval(o.e, o.t, o.ws)
  IN IF o.lo = v.lo /\ o.hi = v.hi THEN "ok"
     ELSE IF QuarterEnd(o.e) /\ o.lo = v.lo /\ o.hi = CutHi(o.e, o.t, o.ws).hi THEN "quarter ends at the start of its last day"
     ELSE IF o.lo # v.lo THEN "start of the interval" ELSE "end of the interval"
Chosen(o, v) == {i \in 1..Len(o.all) : LET s == TruncTs(o.all[i], o.u, o.ws) IN v.lo <= s /\ s <= v.hi}
JudgeRowsSel(o) ==
  IF o.status # "ok" THEN "status:" \o o.status
  ELSE LET got == {o.sel[i] : i \in 1..Len(o.sel)}
           good == Chosen(o, Interval(o.e, o.t, o.ws))
           want == IF o.neg THEN (1..Len(o.all)) \ good ELSE good
       IN IF got = want THEN "ok"
          ELSE IF QuarterEnd(o.e) /\ ~o.neg /\ got = Chosen(o, CutHi(o.e, o.t, o.ws)) THEN "quarter ends at the start of its last day"
          ELSE "rows selected"
JudgeDate(o) == IF o.mode = "ends" THEN JudgeEnds(o) ELSE JudgeRowsSel(o)
=============================================================================
