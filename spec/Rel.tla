-------------------------------- MODULE Rel --------------------------------
(* Relational meaning of a metrics query over a small database.

   A world  w  is a record of tables:  w[view] is a sequence of rows, a row a record column -> scalar (Val).
   A joined row is a function  view -> row number, 0 standing for the all-NULL row of an outer join.
   Because joined rows carry row numbers, the joined relation is a *set*; an aggregate owned by a view is taken
   over the distinct rows of that view that occur in a group, which is exactly "fan-out safe".

   Expressions (records):
     [op |-> "col", view, col]   [op |-> "const", v]   [op |-> "trunc", unit, ws, e]
     [op |-> "if", c, a, b]      [op |-> "cond", c]  (a boolean as 0/1/NULL)
     [op |-> "bin", f, a, b]     f in + - * /       [op |-> "case", arms, else]
     [op |-> "diff", unit, ws, mode, a, b]   [op |-> "part", part, e]
   Conditions:
     [op |-> "and"/"or", args]   [op |-> "not", c]
     [op |-> "cmp", f, e, v]     f in eq ne lt le gt ge          v an expression
     [op |-> "in"/"notin", e, vs]  [op |-> "null"/"notnull", e]
     [op |-> "text", f, ci, e, v]  f in contains starts ends, negated by "not"
     [op |-> "true"/"false", e]
     [op |-> "mark", name]   the row carries this mark (see NonAdditive)
     [op |-> "ftext", e, s, numeric]   a value s written in the model's filter language (FilterText)                                                                        *)
EXTENDS FilterText, Cal, TLC

RECURSIVE Eval(_, _, _), EvalC(_, _, _)

Arith(f, a, b) ==
  IF IsNull(a) \/ IsNull(b) THEN NULL
  ELSE CASE f = "+" -> IF NumD(a) = 1 /\ NumD(b) = 1 THEN Num(a[2] + b[2]) ELSE Rat(NumN(a) * NumD(b) + NumN(b) * NumD(a), NumD(a) * NumD(b))
         [] f = "-" -> IF NumD(a) = 1 /\ NumD(b) = 1 THEN Num(a[2] - b[2]) ELSE Rat(NumN(a) * NumD(b) - NumN(b) * NumD(a), NumD(a) * NumD(b))
         [] f = "*" -> IF NumD(a) = 1 /\ NumD(b) = 1 THEN Num(a[2] * b[2]) ELSE Rat(NumN(a) * NumN(b), NumD(a) * NumD(b))
         [] f = "/" -> IF NumN(b) = 0 THEN NULL
                       ELSE LET n == NumN(a) * NumD(b) d == NumD(a) * NumN(b)
                            IN IF d < 0 THEN Rat(-n, -d) ELSE Rat(n, d)

TextHas(f, s, p) == CASE f = "contains" -> ContainsC(s, p)
                      [] f = "starts" -> StartsWith(s, p)
                      [] f = "ends" -> EndsWithC(s, p)

PartOf(p, s) ==
  LET c == Civil(DayOf(s)) IN
  CASE p = "hour_of_day" -> TimeOfDay(s) \div 3600
    [] p = "day_of_month" -> c.d
    [] p = "day_of_year" -> DayOfYear(DayOf(s))
    [] p = "month_number" -> c.m
    [] p = "quarter_number" -> (c.m - 1) \div 3 + 1
    [] p = "year_number" -> c.y

\* value of expression e in joined row r of world w
Eval(w, r, e) ==
  CASE e.op = "col" -> IF r[e.view] = 0 THEN NULL ELSE w[e.view][r[e.view]][e.col]
    [] e.op = "const" -> e.v
    [] e.op = "trunc" -> LET x == Eval(w, r, e.e) IN IF IsNull(x) THEN NULL ELSE Ts(TruncTs(x[2], e.unit, e.ws))
    [] e.op = "part" -> LET x == Eval(w, r, e.e) IN IF IsNull(x) THEN NULL ELSE Num(PartOf(e.part, x[2]))
    [] e.op = "cond" -> LET t == EvalC(w, r, e.c) IN IF t = 2 THEN NULL ELSE Num(t)
    [] e.op = "if" -> IF EvalC(w, r, e.c) = 1 THEN Eval(w, r, e.a) ELSE Eval(w, r, e.b)
    [] e.op = "bin" -> Arith(e.f, Eval(w, r, e.a), Eval(w, r, e.b))
    [] e.op = "diff" -> LET a == Eval(w, r, e.a) b == Eval(w, r, e.b)
                        IN IF IsNull(a) \/ IsNull(b) THEN NULL
                           ELSE Num(IF e.mode = "complete" THEN CompleteDiff(a[2], b[2], e.unit)
                                    ELSE BoundaryDiff(a[2], b[2], e.unit, e.ws))

EvalC(w, r, c) ==
  CASE c.op = "and" -> And3({EvalC(w, r, c.args[i]) : i \in 1..Len(c.args)})
    [] c.op = "or" -> Or3({EvalC(w, r, c.args[i]) : i \in 1..Len(c.args)})
    [] c.op = "not" -> Not3(EvalC(w, r, c.c))
    [] c.op = "mark" -> T3(r[c.name] = 1)
    [] c.op = "ftext" -> EvalC(w, r, MeaningOf(c.e, c.s, c.numeric))
    [] c.op = "null" -> T3(IsNull(Eval(w, r, c.e)))
    [] c.op = "notnull" -> T3(~IsNull(Eval(w, r, c.e)))
    [] c.op = "true" -> LET x == Eval(w, r, c.e) IN IF IsNull(x) THEN 2 ELSE T3(NumN(x) # 0)
    [] c.op = "false" -> LET x == Eval(w, r, c.e) IN IF IsNull(x) THEN 2 ELSE T3(NumN(x) = 0)
    [] c.op = "cmp" ->
         LET a == Eval(w, r, c.e) b == Eval(w, r, c.v)
         IN IF IsNull(a) \/ IsNull(b) THEN 2
            ELSE (CASE c.f = "eq" -> T3(Same(a, b))
                   [] c.f = "ne" -> T3(~Same(a, b))
                   [] c.f = "lt" -> T3(Less(a, b))
                   [] c.f = "le" -> T3(~Less(b, a))
                   [] c.f = "gt" -> T3(Less(b, a))
                   [] c.f = "ge" -> T3(~Less(a, b)))
    [] c.op = "in" -> LET a == Eval(w, r, c.e) IN IF IsNull(a) THEN 2 ELSE T3(\E i \in 1..Len(c.vs) : Same(a, c.vs[i]))
    [] c.op = "notin" -> LET a == Eval(w, r, c.e) IN IF IsNull(a) THEN 2 ELSE T3(\A i \in 1..Len(c.vs) : ~Same(a, c.vs[i]))
    [] c.op = "text" ->
         LET a == Eval(w, r, c.e)
         IN IF IsNull(a) THEN 2
            ELSE IF c.ci THEN T3(TextHas(c.f, LowerC(Chars(a)), LowerC(Chars(c.v))))
            ELSE T3(TextHas(c.f, Chars(a), Chars(c.v)))

(* ---- the joined relation.  A plan is  [base |-> view, joins |-> seq of [view, kind, on]],
        on = sequence of [a |-> expr, b |-> expr], all of which must be equal (and not NULL). *)
OnHolds(w, r, on) == \A i \in 1..Len(on) :
   LET a == Eval(w, r, on[i].a) b == Eval(w, r, on[i].b) IN ~IsNull(a) /\ ~IsNull(b) /\ Same(a, b)

Extend(w, R, j) ==
  UNION {LET M == {k \in 1..Len(w[j.view]) : OnHolds(w, r @@ (j.view :> k), j.on)}
         IN IF M = {} THEN (IF j.kind = "inner" THEN {} ELSE {r @@ (j.view :> 0)})
            ELSE {r @@ (j.view :> k) : k \in M} : r \in R}

RECURSIVE JoinAll(_, _, _, _)
JoinAll(w, R, joins, i) == IF i > Len(joins) THEN R ELSE JoinAll(w, Extend(w, R, joins[i]), joins, i + 1)

Joined(w, plan) == JoinAll(w, {(plan.base :> k) : k \in 1..Len(w[plan.base])}, plan.joins, 1)

(* ---- aggregates.  A measure is a record
     [kind |-> "agg", agg, view, e, c]    c: measure filter condition
     [kind |-> "expr", ...]               an arithmetic expression over measures (see EvalM)
   mode "rows": over all joined rows of the group (warehouses without symmetric aggregates)
   mode "own":  over the distinct rows of the owning view                                              *)
Owned(w, G, m) ==   \* set of <<owner row, value>>; the owner row is part of the element, so equal values count
  {<<r[m.view], Eval(w, r, m.e)>> : r \in {q \in G : q[m.view] # 0 /\ EvalC(w, q, m.c) = 1}}
ByRow(w, G, m) ==
  {<<r, Eval(w, r, m.e)>> : r \in {q \in G : EvalC(w, q, m.c) = 1}}

NonNull(S) == {x \in S : ~IsNull(x[2])}
Distinct(S) == {x[2] : x \in NonNull(S)}
MaxOf(V) == IF V = {} THEN NULL ELSE CHOOSE x \in V : \A y \in V : ~Less(x, y)
MinOf(V) == IF V = {} THEN NULL ELSE CHOOSE x \in V : \A y \in V : ~Less(y, x)

RECURSIVE SortSeq0(_)
SortSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : ~Less(y[2], x[2]) IN <<x[2]>> \o SortSeq0(S \ {x})

\* aggregates over the distinct values of a key: set of <<key, value>>, rows with a NULL key or value left out
Keyed(w, G, m) == {x \in {<<Eval(w, r, m.k), Eval(w, r, m.e)>> : r \in {q \in G : EvalC(w, q, m.c) = 1}} :
                     ~IsNull(x[1]) /\ ~IsNull(x[2])}

AggOf(w, G, m, mode) ==
  IF m.agg \in {"sum_distinct", "average_distinct"}
  THEN LET K == Keyed(w, G, m) n == Cardinality(K)
       IN IF n = 0 THEN NULL ELSE IF m.agg = "sum_distinct" THEN Num(SumSecond(K)) ELSE Rat(SumSecond(K), n)
  ELSE
  LET S == NonNull(IF mode = "own" THEN Owned(w, G, m) ELSE ByRow(w, G, m))
      n == Cardinality(S)
      sum == SumSecond(S)
  IN CASE m.agg = "count" -> Num(n)
       [] m.agg = "count_distinct" -> Num(Cardinality(Distinct(S)))
       [] m.agg = "sum" -> IF n = 0 THEN NULL ELSE Num(sum)
       [] m.agg = "average" -> IF n = 0 THEN NULL ELSE Rat(sum, n)
       [] m.agg = "max" -> MaxOf(Distinct(S))
       [] m.agg = "min" -> MinOf(Distinct(S))
       [] m.agg = "median" -> IF n = 0 THEN NULL
                              ELSE LET q == SortSeq0(S)
                                   IN IF n % 2 = 1 THEN q[(n + 1) \div 2]
                                      ELSE Rat(q[n \div 2][2] + q[n \div 2 + 1][2], 2)

\* sum and count may show an empty group as 0 or as NULL; both are read as 0
Soft(m) == m.kind = "agg" /\ m.agg \in {"sum", "sum_distinct", "count", "count_distinct"}

RECURSIVE EvalM(_, _, _, _)
EvalM(w, G, m, mode) ==
  CASE m.kind = "agg" -> AggOf(w, G, m, mode)
    [] m.kind = "const" -> m.v
    [] m.kind = "bin" -> LET a == EvalM(w, G, m.a, mode) b == EvalM(w, G, m.b, mode) IN Arith(m.f, a, b)

\* can an arithmetic metric see the difference between an empty sum shown as 0 and as NULL?  Then it is not judged.
RECURSIVE Fuzzy(_, _, _, _)
Fuzzy(w, G, m, mode) ==
  CASE m.kind = "agg" -> Soft(m) /\ Zeroish(AggOf(w, G, m, mode)) = Num(0)
    [] m.kind = "const" -> FALSE
    [] m.kind = "bin" -> Fuzzy(w, G, m.a, mode) \/ Fuzzy(w, G, m.b, mode)

(* ---- groups *)
DimsOf(w, r, dims) == [i \in 1..Len(dims) |-> Eval(w, r, dims[i])]
=============================================================================
