----------------------------- MODULE NonAdditive -----------------------------
(* Queries with non-additive metrics.  o.marks is a sequence of
     [name |-> mark, date |-> expr, wins |-> <<expr>>, own |-> <<expr>>, choice |-> "max"/"min", nulleq |-> BOOLEAN]:
   among the query's rows (after its filters) that agree on every window expression, only those at the first / last
   value of the date carry the mark; the condition of the metric requires the mark.
   A row whose window expressions contain a NULL has no window unless NULLs are declared equal. *)
EXTENDS QuerySem

ValsOf(w, r, es) == [i \in 1..Len(es) |-> Eval(w, r, es[i])]

Marked(w, R, mk) ==
  LET D  == [r \in R |-> Eval(w, r, mk.date)]
      W  == [r \in R |-> ValsOf(w, r, mk.wins)]
      ok == {r \in R : ~IsNull(D[r]) /\ (mk.nulleq \/ \A i \in 1..Len(mk.wins) : ~IsNull(W[r][i]))}
      best == [k \in {W[r] : r \in ok} |->
                 LET V == {D[r] : r \in {q \in ok : W[q] = k}} IN IF mk.choice = "max" THEN MaxOf(V) ELSE MinOf(V)]
  IN {r \in ok : D[r] = best[W[r]]}

RECURSIVE MarkAll(_, _, _, _, _)
MarkAll(w, R0, R, marks, i) ==
  IF i > Len(marks) THEN R
  ELSE LET M == Marked(w, R0, marks[i])
           base(r) == [x \in DOMAIN r \ {marks[j].name : j \in 1..Len(marks)} |-> r[x]]
       IN MarkAll(w, R0, {r @@ (marks[i].name :> IF base(r) \in M THEN 1 ELSE 0) : r \in R}, marks, i + 1)

JudgeNonAdditive(w, o) ==
  IF o.status # "ok" THEN "status:" \o o.status
  ELSE IF o.cols # o.want THEN "columns"
  ELSE LET R == RowsOfQuery(w, o.plan, o.q) IN JudgeRows(w, MarkAll(w, R, R, o.marks, 1), o)
=============================================================================
