------------------------------- MODULE Funnel -------------------------------
(* Funnels over joined rows.  fn:
     [plan, where, date, link, steps (seq of conditions), unit, n, mode]
   A row reaches step k with a start time t (the time of the step-1 row of its chain).                            *)
EXTENDS QuerySem

Later(a, b) == ~IsNull(a) /\ ~IsNull(b) /\ Less(a, b)
Within(fn, t, b) ==
  /\ ~IsNull(t) /\ ~IsNull(b)
  /\ (IF fn.mode = "complete" THEN CompleteDiff(t[2], b[2], fn.unit) ELSE BoundaryDiff(t[2], b[2], fn.unit, 0)) <= fn.n

BaseRows(w, fn) == Filtered(w, fn.plan, fn.where)
RECURSIVE Reach(_, _, _, _)
Reach(w, fn, B, k) ==
  IF k = 1 THEN {[r |-> r, t |-> Eval(w, r, fn.date)] : r \in {r \in B : EvalC(w, r, fn.steps[1]) = 1}}
  ELSE LET P == Reach(w, fn, B, k - 1)
           C == {r \in B : EvalC(w, r, fn.steps[k]) = 1}
       IN UNION {{[r |-> r, t |-> p.t] : p \in
                    {p \in P : LET l == Eval(w, p.r, fn.link) IN
                       /\ ~IsNull(l) /\ l = Eval(w, r, fn.link)
                       /\ Later(Eval(w, p.r, fn.date), Eval(w, r, fn.date))
                       /\ Within(fn, p.t, Eval(w, r, fn.date))}} : r \in C}
StepRows(w, fn, k) == {x.r : x \in Reach(w, fn, BaseRows(w, fn), k)}
Links(w, fn, k) == {Eval(w, r, fn.link) : r \in StepRows(w, fn, k)} \ {NULL}

\* the links a filter keeps
Kept(w, fn, f) ==
  LET F == Links(w, fn, f.from) T == Links(w, fn, f.to)
  IN IF f.converted THEN F \cap T ELSE F \ T

\* o.rows[i] = [k |-> step, row |-> <<dims, mets>>]
RowsAt(o, k) == SelectSeq(o.rows, LAMBDA x : x.k = k)
StepObs(o, k) ==
  [o EXCEPT !.rows = [i \in 1..Len(RowsAt(o, k)) |-> RowsAt(o, k)[i].row]]

JudgeSteps(w, o) ==
  LET bad == {k \in 1..Len(o.fn.steps) : JudgeRows(w, StepRows(w, o.fn, k), StepObs(o, k)) # "ok"}
  IN IF \E i \in 1..Len(o.rows) : o.rows[i].k \notin 1..Len(o.fn.steps) THEN "unknown step"
     ELSE IF bad = {} THEN "ok"
     ELSE LET k == CHOOSE k \in bad : \A j \in bad : k <= j
          IN "step " \o ToString(k) \o ": " \o JudgeRows(w, StepRows(w, o.fn, k), StepObs(o, k))

JudgeFilter(w, o) ==
  LET K == Kept(w, o.fn, o.f)
      R == {r \in RowsOfQuery(w, o.plan, o.q) : Eval(w, r, o.fn.link) \in K}
  IN JudgeRows(w, R, o)

JudgeFunnel(w, o) ==
  IF o.status # "ok" THEN "status:" \o o.status
  ELSE IF o.cols # o.want THEN "columns"
  ELSE IF o.kind = "funnel" THEN JudgeSteps(w, o) ELSE JudgeFilter(w, o)
=============================================================================
