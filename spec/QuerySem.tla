------------------------------ MODULE QuerySem ------------------------------
(* What the rows of a single metrics query must be, and a total verdict on recorded runs.
   A recorded run (observation) is
     [w     |-> index of the world,
      plan  |-> the FROM/JOIN structure read from the SQL that was generated,
      q     |-> [where |-> condition, dims |-> <<expr>>, mets |-> <<measure>>, having |-> <<[m, f, v]...>>,
                 mode |-> "own"/"rows", nogroup |-> BOOLEAN, limit |-> n or 0,
                 order |-> <<[i |-> output column, desc |-> BOOLEAN]>>],
      status |-> "ok" / "error",  rows |-> observed rows, cols |-> column names, want |-> wanted column names] *)
EXTENDS Rel

\* having conditions: same operators as row conditions, over a metric value
RECURSIVE HavC(_, _, _, _)
HavC(w, G, h, mode) ==
  CASE h.op = "and" -> And3({HavC(w, G, h.args[i], mode) : i \in 1..Len(h.args)})
    [] h.op = "or" -> Or3({HavC(w, G, h.args[i], mode) : i \in 1..Len(h.args)})
    [] h.op = "not" -> Not3(HavC(w, G, h.c, mode))
    [] OTHER ->
         LET x == EvalM(w, G, h.m, mode)
         IN CASE h.op = "null" -> T3(IsNull(x))
              [] h.op = "notnull" -> T3(~IsNull(x))
              [] h.op = "in" -> IF IsNull(x) THEN 2 ELSE T3(\E i \in 1..Len(h.vs) : Same(x, h.vs[i]))
              [] h.op = "notin" -> IF IsNull(x) THEN 2 ELSE T3(\A i \in 1..Len(h.vs) : ~Same(x, h.vs[i]))
              [] OTHER -> IF IsNull(x) THEN 2
                          ELSE CASE h.f = "eq" -> T3(Same(x, h.v)) [] h.f = "ne" -> T3(~Same(x, h.v))
                                 [] h.f = "lt" -> T3(Less(x, h.v)) [] h.f = "le" -> T3(~Less(h.v, x))
                                 [] h.f = "gt" -> T3(Less(h.v, x)) [] h.f = "ge" -> T3(~Less(x, h.v))

\* does the having condition look at an empty sum/count (0 or NULL, warehouse dependent)?
RECURSIVE HavFuzzy(_, _, _, _)
HavFuzzy(w, G, h, mode) ==
  CASE h.op \in {"and", "or"} -> \E i \in 1..Len(h.args) : HavFuzzy(w, G, h.args[i], mode)
    [] h.op = "not" -> HavFuzzy(w, G, h.c, mode)
    [] OTHER -> Fuzzy(w, G, h.m, mode)

Filtered(w, plan, cond) == {r \in Joined(w, plan) : EvalC(w, r, cond) = 1}

\* the groups: a set of [key, G]
Groups(w, R, dims) ==
  IF Len(dims) = 0 THEN {[key |-> <<>>, G |-> R]}
  ELSE {[key |-> k, G |-> {r \in R : DimsOf(w, r, dims) = k}] : k \in {DimsOf(w, r, dims) : r \in R}}

\* a subquery filter  [plan, where, dim, having, e]:  e must be one of the dim values whose group satisfies having
SubKeys(w, s, mode) ==
  {g.key[1] : g \in {g \in Groups(w, Filtered(w, s.plan, s.where), <<s.dim>>) : HavC(w, g.G, s.having, mode) = 1}}
RowsOfQuery(w, plan, q) ==
  LET K == [i \in 1..Len(q.subs) |-> SubKeys(w, q.subs[i], q.mode)]
  IN {r \in Filtered(w, plan, q.where) :
        \A i \in 1..Len(q.subs) : LET x == Eval(w, r, q.subs[i].e) IN ~IsNull(x) /\ x \in K[i]}
\* the meaning of a group-by filter is not fixed when it looks at an empty sum or count (0 or NULL)
SubFuzzy(w, s, mode) == \E g \in Groups(w, Filtered(w, s.plan, s.where), <<s.dim>>) : HavFuzzy(w, g.G, s.having, mode)

MetOk(w, G, m, mode, obs) ==
  IF Fuzzy(w, G, m, mode) /\ m.kind # "agg" THEN TRUE
  ELSE LET x == EvalM(w, G, m, mode)
       IN IF Soft(m) THEN Near(Zeroish(x), Zeroish(obs)) ELSE Near(x, obs)

RowOk(w, g, q, row) ==
  /\ Len(row) = Len(q.dims) + Len(q.mets)
  /\ \A i \in 1..Len(q.dims) : Near(g.key[i], row[i])
  /\ \A i \in 1..Len(q.mets) : MetOk(w, g.G, q.mets[i], q.mode, row[Len(q.dims) + i])
KeyOk(g, q, row) == \A i \in 1..Len(q.dims) : Near(g.key[i], row[i])

\* ordering of the observed rows by output column; NULLs last in either direction
OrdLE(a, b, o) ==   \* may a precede b as far as this key goes: "lt", "eq" or "gt"
  LET x == a[o.i] y == b[o.i]
  IN IF x = y THEN "eq"
     ELSE IF IsNull(x) THEN "gt" ELSE IF IsNull(y) THEN "lt"
     ELSE IF IsNum(x) /\ IsNum(y) /\ Same(x, y) THEN "eq"
     ELSE IF Less(x, y) THEN (IF o.desc THEN "gt" ELSE "lt") ELSE (IF o.desc THEN "lt" ELSE "gt")
RECURSIVE Precedes(_, _, _, _)
Precedes(a, b, ord, k) ==
  IF k > Len(ord) THEN TRUE
  ELSE LET c == OrdLE(a, b, ord[k]) IN IF c = "lt" THEN TRUE ELSE IF c = "gt" THEN FALSE ELSE Precedes(a, b, ord, k + 1)
Ordered(rows, ord) == Len(ord) = 0 \/ \A i \in 1..(Len(rows) - 1) : Precedes(rows[i], rows[i + 1], ord, 1)

\* the rows o.rows must be those of the grouping of the joined rows R (limit -1: not all groups need to be there)
JudgeRows(w, R, o) ==
  LET q  == o.q
      GS == Groups(w, R, q.dims)
      sure == {g \in GS : \A i \in 1..Len(q.having) : HavC(w, g.G, q.having[i], q.mode) = 1}
      fuzzy == {g \in GS : \E i \in 1..Len(q.having) : HavFuzzy(w, g.G, q.having[i], q.mode)}
      must == sure \ fuzzy
      may  == sure \cup fuzzy
      n == Len(o.rows)
  IN IF \E i \in 1..n : Len(o.rows[i]) # Len(q.dims) + Len(q.mets) THEN "row-width"
     ELSE IF \E i \in 1..n : ~\E g \in GS : KeyOk(g, q, o.rows[i]) THEN "unexpected-group"
     ELSE IF \E i \in 1..n : ~\E g \in may : KeyOk(g, q, o.rows[i]) THEN "having"
     ELSE IF \E i \in 1..n : \E j \in 1..n : i # j /\ (\A k \in 1..Len(q.dims) : o.rows[i][k] = o.rows[j][k]) THEN "duplicate-group"
     ELSE IF q.limit = 0 /\ \E g \in must : ~\E i \in 1..n : KeyOk(g, q, o.rows[i]) THEN "missing-group"
     ELSE IF q.limit > 0 /\ fuzzy = {} /\ n # (IF Cardinality(must) < q.limit THEN Cardinality(must) ELSE q.limit) THEN "limit"
     ELSE IF q.limit < 0 /\ n > -q.limit THEN "limit"
     ELSE IF \E i \in 1..n : ~\E g \in may : RowOk(w, g, q, o.rows[i]) THEN "metric-value"
     ELSE IF ~Ordered(o.rows, q.order) THEN "order"
     ELSE "ok"

JudgeGrouped(w, o) == JudgeRows(w, RowsOfQuery(w, o.plan, o.q), o)

(* a query without GROUP BY returns one row per joined row *)
RawRow(w, r, q) == [i \in 1..(Len(q.dims) + Len(q.raws)) |->
                      IF i <= Len(q.dims) THEN Eval(w, r, q.dims[i]) ELSE Eval(w, r, q.raws[i - Len(q.dims)])]
RowNear(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
JudgeRaw(w, o) ==
  LET q == o.q
      R == RowsOfQuery(w, o.plan, q)
      n == Len(o.rows)
  IN IF q.limit = 0 /\ n # Cardinality(R) THEN "row-count"
     ELSE IF q.limit > 0 /\ n # (IF Cardinality(R) < q.limit THEN Cardinality(R) ELSE q.limit) THEN "limit"
     ELSE IF \E i \in 1..n : Len(o.rows[i]) # Len(q.dims) + Len(q.raws) THEN "row-width"
     ELSE IF \E i \in 1..n : LET row == o.rows[i]
                             IN Cardinality({j \in 1..n : o.rows[j] = row}) >
                                Cardinality({r \in R : RowNear(RawRow(w, r, q), row)}) THEN "row-value"
     ELSE IF \E i \in 1..n : ~\E r \in R : RowNear(RawRow(w, r, q), o.rows[i]) THEN "row-value"
     ELSE "ok"

JudgeQuery(w, o) ==
  IF o.status # "ok" THEN "status:" \o o.status
  ELSE IF o.cols # o.want THEN "columns"
  ELSE IF \E i \in 1..Len(o.q.subs) : SubFuzzy(w, o.q.subs[i], o.q.mode) THEN "ok"
  ELSE IF o.q.nogroup THEN JudgeRaw(w, o) ELSE JudgeGrouped(w, o)
=============================================================================
