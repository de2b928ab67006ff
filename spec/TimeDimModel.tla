---------------------------- MODULE TimeDimModel ----------------------------
(* Days pass; the numbering of periods keeps its laws on every day, for every first day of the week and every zone. *)
EXTENDS TimeDim, TLC
CONSTANTS From, To
VARIABLES n, ws
vars == <<n, ws>>
Init == n = From /\ ws \in 0..6
Next == n < To /\ n' = n + 1 /\ UNCHANGED ws
P(off) == [ws |-> ws, off |-> off, month |-> "short", day |-> "short", db |-> "other"]
L == n * DAYSECS + 43210
V(tf) == Value(tf, L, P(0))
WeekStable == LET st == StartDay(n, "week", ws) IN WeekNumber(n, ws) = WeekNumber(st, ws) /\ Weekday(st) = ws /\ st <= n /\ n < st + 7
WeekSucc == LET a == WeekNumber(n, ws) b == WeekNumber(n + 7, ws)
            IN (b = a + 1 /\ b <= 53) \/ (b = 1 /\ a \in {52, 53})
WeekOfMonthRange == LET k == WeekOfMonth(n, ws) IN k \in 1..6 /\ (Civil(n).d = 1 => k = 1)
Nested == \A a \in {"date", "month", "quarter"} : Value("year", V(a)[2], P(0)) = V("year")
Idem == \A a \in {"minute", "hour", "date", "week", "month", "quarter", "year"} : Value(a, V(a)[2], P(0)) = V(a)
NoAfter == \A a \in {"minute", "hour", "date", "week", "month", "quarter", "year"} : V(a)[2] <= L
Fiscal == \A off \in {-3, 1, 6, 11} :
   /\ Value("fiscal_month", L, P(off)) = Ts(FirstOfMonthIndex(MonthIndex(n) + off) * DAYSECS)
   /\ Value("fiscal_month_index", L, P(off)) = Num(((Civil(n).m + off - 1) % 12) + 1)
   /\ Value("fiscal_year", L, P(0)) = V("year")
Offsets == \A z \in Zones : LET d == Local(z, L) - L IN d \in (-11 * 3600)..(14 * 3600) /\ d % 1800 = 0
Counting == \A d \in {0, 1, 6, 7, 31, 59, 365, 366} : \A u \in {"day", "week", "month", "quarter", "year"} :
   LET b == L + d * DAYSECS
   IN /\ CompleteDiff(L, b, u) <= BoundaryDiff(L, b, u, 0) /\ BoundaryDiff(L, b, u, 0) <= CompleteDiff(L, b, u) + 1
      /\ CompleteDiff(b, L, u) = -CompleteDiff(L, b, u) /\ BoundaryDiff(b, L, u, 0) = -BoundaryDiff(L, b, u, 0)
=============================================================================
