--------------------------- MODULE DateExprModel ---------------------------
(* The day passes; the expression language keeps its own laws on every day (checked before the code is judged by it):
   intervals are well formed and aligned, consecutive units touch, and the different phrasings of an interval agree. *)
EXTENDS DateExpr, TLC
CONSTANTS From, To, Unit
VARIABLES t, ws
vars == <<t, ws>>
Init == t = From /\ ws \in 0..6
Next == t < To /\ t' = t + 1 /\ UNCHANGED ws
I(e) == Interval(e, t, ws)
N(n, u) == [k |-> "n", n |-> n, u |-> u]
Ago(n, u) == [k |-> "ago", n |-> n, u |-> u]
This(u) == [k |-> "this", u |-> u]
LastU(u) == [k |-> "last", u |-> u]
AgoFor(n, u, m, v) == [k |-> "agofor", n |-> n, u |-> u, m |-> m, v |-> v]
ToDate(n, u) == [k |-> "todate", n |-> n, u |-> u]
U == Unit
WellFormed == \A n \in 0..3 : I(Ago(n, U)).lo < I(Ago(n, U)).hi /\ I(ToDate(n, U)).lo < I(ToDate(n, U)).hi
Contains == Selects(This(U), t, ws, First(t)) /\ Selects(This(U), t, ws, Last(t))
Touch == \A n \in 0..3 : I(Ago(n + 1, U)).hi + 1 = I(Ago(n, U)).lo
Phrases == /\ I(LastU(U)) = I(Ago(1, U)) /\ I(This(U)) = I(N(1, U)) /\ I(This(U)) = I(Ago(0, U))
           /\ \A n \in 1..3 : I(AgoFor(n, U, 1, U)) = I(Ago(n, U))
           /\ \A n \in 1..4 : I(N(n, U)) = I([k |-> "until", a |-> Ago(n - 1, U), b |-> This(U)])
           /\ \A n \in 2..4 : I(AgoFor(n, U, n + 1, U)).hi = I(This(U)).hi
           /\ I(N(1, "day")) = I([k |-> "today"]) /\ I(LastU("day")) = I([k |-> "yesterday"])
           /\ I([k |-> "until", a |-> [k |-> "yesterday"], b |-> [k |-> "today"]]) = I(N(2, "day"))
ToDateBehind == /\ I(ToDate(0, U)).lo = I(This(U)).lo
                /\ I(ToDate(0, U)).hi < First(t) \/ (I(ToDate(0, U)).hi = Last(t) /\ First(t) = I(This(U)).lo)
                /\ I(ToDate(1, U)).lo = I(LastU(U)).lo
Year3 == I(N(1, "quarter")).lo = First(StartDay(t, "quarter", ws)) /\ Civil(StartDay(t, "quarter", ws)).m \in {1, 4, 7, 10}
Week0 == Weekday(StartDay(t, "week", ws)) = ws
=============================================================================
