----------------------------- MODULE Cumulative -----------------------------
(* Cumulative metrics.  For a point s of the date spine (the starts of the query's periods up to today) and a
   combination of the other dimensions, a cumulative metric is the aggregate over the joined rows that satisfy the
   query's row filters, whose own date falls in a period that starts at or before s, and that satisfy the metric's
   cumulative condition at s.  Filters on the date select which points are shown, never which rows are accumulated.
     obs.dims   sequence of row expressions (the date dimension included, see obs.di)
     obs.di     index of the date dimension in dims, 0 when there is none;  obs.unit / obs.ws its timeframe
     obs.lo, obs.today   first day of the spine and the current day (days since 2000-01-01)
     obs.cums   sequence of [plan, where, date, m, cw]   cw: sequence of [f, e] (e compared with the point)
     obs.dwhere sequence of sequences (any of them) of [unit, f, v]   filters on the date, applied to the point truncated to unit
     obs.plain  sequence of [plan, where, dims, m]  ordinary metrics of the same query;  obs.base their plan
     obs.out    sequence of expressions over [kind |-> "cum", i], [kind |-> "plain", i], "bin", "const"
     obs.having conditions over the same expressions                                                            *)
EXTENDS QuerySem

DaySpine(o) == o.lo..o.today
Spine(o) ==
  {s \in {StartDay(d, o.unit, o.ws) : d \in DaySpine(o)} : s <= o.today}
Passes(f, s, ws) ==
  LET x == StartDay(s, f.unit, ws) * DAYSECS
  IN CASE f.f = "lt" -> x < f.v [] f.f = "le" -> x <= f.v [] f.f = "gt" -> x > f.v [] f.f = "ge" -> x >= f.v
       [] f.f = "eq" -> x = f.v [] f.f = "ne" -> x # f.v
Shown(o, s) == \A i \in 1..Len(o.dwhere) : \E j \in 1..Len(o.dwhere[i]) : Passes(o.dwhere[i][j], s, o.ws)
Points(o) == {s \in Spine(o) : Shown(o, s)}

OtherDims(o) == SelectSeq([i \in 1..Len(o.dims) |-> IF i = o.di THEN <<>> ELSE <<i>>], LAMBDA x : x # <<>>)
Combo(w, o, r) == [j \in 1..Len(OtherDims(o)) |-> Eval(w, r, o.dims[OtherDims(o)[j][1]])]

CmpVal(f, x, s) ==
  CASE f = "lt" -> x < s [] f = "le" -> x <= s [] f = "gt" -> x > s [] f = "ge" -> x >= s [] f = "eq" -> x = s [] f = "ne" -> x # s
CW(w, o, k, r, s) ==
  \A i \in 1..Len(k.cw) : LET x == Eval(w, r, k.cw[i].e) IN ~IsNull(x) /\ CmpVal(k.cw[i].f, x[2], s * DAYSECS)
\* does row r count at point s?
Counts(w, o, k, r, s) ==
  LET x == Eval(w, r, k.date)
  IN ~IsNull(x) /\ StartDay(DayOf(x[2]), o.unit, o.ws) <= s /\ CW(w, o, k, r, s)

CumRows(w, k) == Filtered(w, k.plan, k.where)
At(w, o, k, R, s, cb) == {r \in R : Combo(w, o, r) = cb /\ Counts(w, o, k, r, s)}

\* keys are <<point or NULL, combination>>
Ends(o, fan) == IF fan THEN Spine(o) ELSE {o.today}     \* the points that stand for "now" without a date dimension
CumKeys(w, o, k, R, fan) ==
  IF o.di = 0
  THEN {<<0, cb>> : cb \in IF Len(o.dims) = 0 THEN {<<>>} ELSE {Combo(w, o, r) : r \in {r \in R : \E s \in Ends(o, fan) : Counts(w, o, k, r, s)}}}
  ELSE UNION {{<<s, Combo(w, o, r)>> : r \in {r \in R : Counts(w, o, k, r, s)}} : s \in Points(o)}
KeyVals(o, key) ==   \* the values the dimension columns show
  [i \in 1..Len(o.dims) |->
     IF i = o.di THEN Ts(key[1] * DAYSECS)
     ELSE LET j == CHOOSE j \in 1..Len(OtherDims(o)) : OtherDims(o)[j][1] = i IN key[2][j]]
CumVal(w, o, k, R, key) == EvalM(w, At(w, o, k, R, IF o.di = 0 THEN o.today ELSE key[1], key[2]), k.m, "rows")
CumFz(w, o, k, R, key) == Fuzzy(w, At(w, o, k, R, IF o.di = 0 THEN o.today ELSE key[1], key[2]), k.m, "rows")

\* without a date dimension: every row taken once per day from its own day to today (known finding), as value of sums and counts
RECURSIVE SumTimes(_, _, _, _, _)
Times(w, o, k, r) == Cardinality({s \in Spine(o) : Counts(w, o, k, r, s)})
SumTimes(w, o, k, G, one) ==
  IF G = {} THEN 0
  ELSE LET r == CHOOSE r \in G : TRUE
           x == Eval(w, r, k.m.e)
       IN (IF IsNull(x) \/ EvalC(w, r, k.m.c) # 1 THEN 0 ELSE Times(w, o, k, r) * (IF one THEN 1 ELSE x[2])) + SumTimes(w, o, k, G \ {r}, one)
FannedVal(w, o, k, R, key) ==
  LET G == {r \in R : Combo(w, o, r) = key[2] /\ Times(w, o, k, r) > 0}
  IN CASE k.m.kind = "agg" /\ k.m.agg = "sum" -> IF G = {} THEN NULL ELSE Num(SumTimes(w, o, k, G, FALSE))
       [] k.m.kind = "agg" /\ k.m.agg = "count" -> Num(SumTimes(w, o, k, G, TRUE))
       [] k.m.kind = "agg" /\ k.m.agg = "average" ->
            LET n == SumTimes(w, o, k, G, TRUE) IN IF n = 0 THEN NULL ELSE Rat(SumTimes(w, o, k, G, FALSE), n)
       [] OTHER -> EvalM(w, G, k.m, "rows")

\* ---- the whole row.  base: 0 = the ordinary metrics, else the first cumulative metric
PlainGroups(w, o) == Groups(w, Filtered(w, o.plain[1].plan, o.plain[1].where), o.dims)
BaseKeys(w, o, RS, fan) ==
  IF Len(o.plain) > 0 THEN {g.key : g \in PlainGroups(w, o)}
  ELSE {KeyVals(o, key) : key \in CumKeys(w, o, o.cums[1], RS[1], fan)}
KeyOf(o, vals) == \* back from shown values to <<point, combination>>
  << IF o.di = 0 THEN 0 ELSE vals[o.di][2] \div DAYSECS, [j \in 1..Len(OtherDims(o)) |-> vals[OtherDims(o)[j][1]]] >>
HasNull(v) == \E i \in 1..Len(v) : IsNull(v[i])

\* the value of cumulative metric i in the row with dimension values v; "lost": it is joined to the base by equality,
\* which a NULL label never satisfies
CV(w, o, RS, i, v, fan) ==
  LET k == o.cums[i]
  IN IF o.di # 0 /\ IsNull(v[o.di]) THEN NULL
     ELSE LET key == KeyOf(o, v)
              here == Len(o.dims) = 0 \/ \E r \in RS[i] : Combo(w, o, r) = key[2] /\ \E s \in (IF o.di = 0 THEN Ends(o, fan) ELSE {key[1]}) : Counts(w, o, k, r, s)
              pt == o.di = 0 \/ key[1] \in Points(o)
          IN IF ~here \/ ~pt THEN NULL
             ELSE IF fan THEN FannedVal(w, o, k, RS[i], key) ELSE CumVal(w, o, k, RS[i], key)
FZ(w, o, RS, i, v) ==
  IF o.di # 0 /\ IsNull(v[o.di]) THEN FALSE ELSE CumFz(w, o, o.cums[i], RS[i], KeyOf(o, v))
PG(w, o, v) == (CHOOSE g \in PlainGroups(w, o) : g.key = v).G

RECURSIVE OutVal(_, _, _, _, _, _), OutFz(_, _, _, _, _)
OutVal(w, o, RS, x, v, fan) ==
  CASE x.kind = "cum" -> CV(w, o, RS, x.i, v, fan)
    [] x.kind = "plain" -> EvalM(w, PG(w, o, v), o.plain[x.i].m, o.mode)
    [] x.kind = "const" -> x.v
    [] x.kind = "bin" -> Arith(x.f, OutVal(w, o, RS, x.a, v, fan), OutVal(w, o, RS, x.b, v, fan))
OutFz(w, o, RS, x, v) ==
  CASE x.kind = "cum" -> FZ(w, o, RS, x.i, v)
    [] x.kind = "plain" -> Fuzzy(w, PG(w, o, v), o.plain[x.i].m, o.mode)
    [] x.kind = "const" -> FALSE
    [] x.kind = "bin" -> OutFz(w, o, RS, x.a, v) \/ OutFz(w, o, RS, x.b, v)
Softy(o, x) == (x.kind = "cum" /\ Soft(o.cums[x.i].m)) \/ (x.kind = "plain" /\ Soft(o.plain[x.i].m))
RECURSIVE Joined2(_, _)     \* does the expression use a metric that is joined to the base?
Joined2(o, x) ==
  CASE x.kind = "cum" -> Len(o.plain) > 0 \/ x.i > 1
    [] x.kind = "bin" -> Joined2(o, x.a) \/ Joined2(o, x.b)
    [] OTHER -> FALSE

ColOk(w, o, RS, x, v, obs, fan) ==
  \/ Joined2(o, x) /\ HasNull(v) /\ IsNull(obs)
  \/ x.kind = "bin" /\ OutFz(w, o, RS, x, v)
  \/ LET e == OutVal(w, o, RS, x, v, fan)
     IN IF Softy(o, x) THEN Near(Zeroish(e), Zeroish(obs)) ELSE Near(e, obs)
RowOkC(w, o, RS, v, row, fan) ==
  /\ \A i \in 1..Len(o.dims) : Near(v[i], row[i])
  /\ \A i \in 1..Len(o.out) : ColOk(w, o, RS, o.out[i], v, row[Len(o.dims) + i], fan)

HavVal(w, o, RS, h, v, fan) ==
  LET x == OutVal(w, o, RS, h.m, v, fan)
  IN CASE h.op = "null" -> IsNull(x) [] h.op = "notnull" -> ~IsNull(x)
       [] OTHER -> ~IsNull(x) /\ (CASE h.f = "eq" -> Same(x, h.v) [] h.f = "ne" -> ~Same(x, h.v) [] h.f = "lt" -> Less(x, h.v)
                                    [] h.f = "le" -> ~Less(h.v, x) [] h.f = "gt" -> Less(h.v, x) [] h.f = "ge" -> ~Less(x, h.v))
HavUnsure(w, o, RS, v) ==
  \E i \in 1..Len(o.having) : OutFz(w, o, RS, o.having[i].m, v) \/ (Joined2(o, o.having[i].m) /\ HasNull(v))

ExplainsC(w, o, fan) ==
  LET RS == [i \in 1..Len(o.cums) |-> CumRows(w, o.cums[i])]
      B == BaseKeys(w, o, RS, fan)
      sure == {v \in B : \A i \in 1..Len(o.having) : HavVal(w, o, RS, o.having[i], v, fan)}
      fz == {v \in B : HavUnsure(w, o, RS, v)}
      must == sure \ fz
      may == sure \cup fz
      n == Len(o.rows)
  IN IF \E i \in 1..n : ~\E v \in B : \A j \in 1..Len(o.dims) : Near(v[j], o.rows[i][j]) THEN "unexpected row"
     ELSE IF \E i, j \in 1..n : i # j /\ \A d \in 1..Len(o.dims) : o.rows[i][d] = o.rows[j][d] THEN "duplicate row"
     ELSE IF \E i \in 1..n : ~\E v \in B : RowOkC(w, o, RS, v, o.rows[i], fan) THEN "cumulative value"
     ELSE IF \E i \in 1..n : ~\E v \in may : RowOkC(w, o, RS, v, o.rows[i], fan) THEN "having"
     ELSE IF o.limit = 0 /\ \E v \in must : ~\E i \in 1..n : RowOkC(w, o, RS, v, o.rows[i], fan) THEN "missing row"
     ELSE IF o.limit > 0 /\ fz = {} /\ n # (IF Cardinality(must) < o.limit THEN Cardinality(must) ELSE o.limit) THEN "limit"
     ELSE "ok"

JudgeCumulative(w, o) ==
  IF o.status # "ok" THEN "status:" \o o.status
  ELSE IF o.cols # o.want THEN "columns"
  ELSE LET v == ExplainsC(w, o, FALSE)
       IN IF v = "ok" THEN "ok"
          ELSE IF o.di = 0 /\ ExplainsC(w, o, TRUE) = "ok" THEN "accumulated once per day"
          ELSE v
=============================================================================
