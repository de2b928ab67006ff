-------------------------------- MODULE Shape --------------------------------
(* The shape of a query's result: its columns, which rows are there, their order, and the first n of them.                 *)
(* An observation is one of QuerySem, with                                                                                 *)
(*   order  |-> <<[i |-> output column, desc |-> BOOLEAN]...>>   nulls |-> TRUE: NULLs come last (else: anywhere)           *)
(*   first  |-> <<>> or <<n>>: at most n rows, which must be first ones of the order                                       *)
(*   may    |-> FALSE: the request must be refused                                                                         *)
(* or [mode |-> "part"]: the same request twice, with and without a limit.                                                  *)
EXTENDS QuerySem
Cmp(x, y, desc, nulls) ==
  IF Near(x, y) \/ Near(y, x) THEN "eq"
  ELSE IF IsNull(x) \/ IsNull(y) THEN (IF ~nulls THEN "free" ELSE IF IsNull(x) THEN "gt" ELSE "lt")
  ELSE IF IsNum(x) /\ IsNum(y) /\ Same(x, y) THEN "eq"
  ELSE IF Less(x, y) THEN (IF desc THEN "gt" ELSE "lt") ELSE (IF desc THEN "lt" ELSE "gt")
RECURSIVE Before(_, _, _, _, _)     \* "lt", "eq", "gt", or "free": nothing is said about it
Before(a, b, ord, nulls, k) ==
  IF k > Len(ord) THEN "eq"
  ELSE LET c == Cmp(a[ord[k].i], b[ord[k].i], ord[k].desc, nulls)
       IN IF c = "eq" THEN Before(a, b, ord, nulls, k + 1) ELSE c
InOrder(rows, ord, nulls) == \A i \in 1..Len(rows) : \A j \in (i + 1)..Len(rows) : Before(rows[i], rows[j], ord, nulls, 1) # "gt"
Row(w, g, q) == [i \in 1..(Len(q.dims) + Len(q.mets)) |-> IF i <= Len(q.dims) THEN g.key[i] ELSE EvalM(w, g.G, q.mets[i - Len(q.dims)], q.mode)]
\* an order by a metric that is empty (0 or NULL) in some group says nothing about which rows are first
Certain(w, GS, q, ord) == \A g \in GS : \A k \in 1..Len(ord) : ord[k].i > Len(q.dims) => ~Fuzzy(w, g.G, q.mets[ord[k].i - Len(q.dims)], q.mode)
Limited(n, first) == IF first = <<>> THEN n ELSE IF n < first[1] THEN n ELSE first[1]
JudgeFirst(w, o) ==
  LET q == o.q
      GS == Groups(w, RowsOfQuery(w, o.plan, q), q.dims)
      sure == {g \in GS : \A i \in 1..Len(q.having) : HavC(w, g.G, q.having[i], q.mode) = 1}
      fuzzy == \E g \in GS : \E i \in 1..Len(q.having) : HavFuzzy(w, g.G, q.having[i], q.mode)
      n == Len(o.rows)
      full == JudgeRows(w, RowsOfQuery(w, o.plan, q), [o EXCEPT !.q.limit = IF o.first = <<>> THEN 0 ELSE IF n > 0 THEN -n ELSE -1, !.q.order = <<>>])
  IN IF full # "ok" THEN full
     ELSE IF ~fuzzy /\ n # Limited(Cardinality(sure), o.first) THEN (IF o.first = <<>> THEN "row-count" ELSE "limit")
     ELSE IF o.first # <<>> /\ n > o.first[1] THEN "limit"
     ELSE IF ~InOrder(o.rows, q.order, o.nulls) THEN "order"
     ELSE IF o.first # <<>> /\ n = o.first[1] /\ ~fuzzy /\ Certain(w, GS, q, q.order)
             /\ \E g \in sure : (\A i \in 1..n : ~KeyOk(g, q, o.rows[i])) /\ (\E i \in 1..n : Before(o.rows[i], Row(w, g, q), q.order, o.nulls, 1) = "gt")
          THEN "not the first rows"
     ELSE "ok"
JudgeRawShape(w, o) ==
  LET R == RowsOfQuery(w, o.plan, o.q)
      v == JudgeRaw(w, [o EXCEPT !.q.limit = IF o.first = <<>> THEN 0 ELSE IF o.first[1] = 0 THEN 1 ELSE o.first[1]])
  IN IF o.first # <<>> /\ o.first[1] = 0 THEN (IF Len(o.rows) = 0 THEN "ok" ELSE "limit") ELSE v
Bag(rows, r) == Cardinality({i \in 1..Len(rows) : rows[i] = r})
JudgePart(o) ==
  IF o.status # "ok" THEN "status:" \o o.status
  ELSE IF o.cols # o.want THEN "columns"
  ELSE IF Len(o.rows) # Limited(Len(o.full), o.first) THEN "limit"
  ELSE IF \E i \in 1..Len(o.rows) : Bag(o.rows, o.rows[i]) > Bag(o.full, o.rows[i]) THEN "limit changes the rows"
  ELSE IF ~InOrder(o.rows, o.order, o.nulls) THEN "order"
  ELSE IF Len(o.order) > 0 /\ \E k \in 1..Len(o.full) : Bag(o.rows, o.full[k]) = 0 /\ \E i \in 1..Len(o.rows) : Before(o.rows[i], o.full[k], o.order, o.nulls, 1) = "gt"
       THEN "not the first rows"
  ELSE "ok"
JudgeShape(w, o) ==
  IF o.mode = "part" THEN JudgePart(o)
  ELSE IF ~o.may THEN (IF o.status = "ok" THEN "a request that must be refused was answered" ELSE IF o.status = "refused" THEN "ok" ELSE "status:" \o o.status)
  ELSE IF o.status # "ok" THEN "status:" \o o.status
  ELSE IF o.cols # o.want THEN "columns"
  ELSE IF o.q.nogroup THEN JudgeRawShape(w, o) ELSE JudgeFirst(w, o)
=============================================================================
