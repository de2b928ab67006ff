------------------------------- MODULE Merged -------------------------------
(* Merged results: one stand-alone grouped query per side, put together on the shared dimensions.
   obs.sides   sequence of [plan, where, dims, mets]         all sides have the same number of dims
   obs.derived sequence of expressions over [kind |-> "ref", s, m] (metric m of side s), "bin", "const"
   obs.having  conditions over the row's metrics ([.. m |-> expression as above])
   obs.rows    observed rows, already arranged as  <<dims of side 1, ..., dims of side n, mets of side 1, ..., derived>>
   A key with a NULL in it may be kept apart per side (NULLs are not equal) or aligned.                              *)
EXTENDS QuerySem

SideGroups(w, s) == Groups(w, Filtered(w, s.plan, s.where), s.dims)
HasNull(k) == \E i \in 1..Len(k) : IsNull(k[i])

\* a merged row: [key, at], at[s] = the group of side s, or {} (none); Present(s) says which sides take part
Row(GS, sides, k, part) == [key |-> k, part |-> {s \in part : \E g \in GS[s] : g.key = k}]
GroupAt(GS, s, k) == CHOOSE g \in GS[s] : g.key = k

Keys(GS) == UNION {{g.key : g \in GS[s]} : s \in DOMAIN GS}
Apart(GS, k) == {[key |-> k, part |-> {s}] : s \in {s \in DOMAIN GS : \E g \in GS[s] : g.key = k}}
Joined1(GS, k) == {[key |-> k, part |-> {s \in DOMAIN GS : \E g \in GS[s] : g.key = k}]}
Aligned(GS, nulltogether) ==
  UNION {IF HasNull(k) /\ ~nulltogether THEN Apart(GS, k) ELSE Joined1(GS, k) : k \in Keys(GS)}
\* every side is only joined to the first one
FirstOnly(GS) ==
  UNION {IF ~HasNull(k) /\ (\E g \in GS[1] : g.key = k) THEN Joined1(GS, k) ELSE Apart(GS, k) : k \in Keys(GS)}

Val(w, GS, o, row, s, m) == IF s \in row.part THEN EvalM(w, GroupAt(GS, s, row.key).G, o.sides[s].mets[m], o.mode) ELSE NULL
RefFuzzy(w, GS, o, row, s, m) == s \in row.part /\ Fuzzy(w, GroupAt(GS, s, row.key).G, o.sides[s].mets[m], o.mode)

RECURSIVE EvalD(_, _, _, _, _), FuzzyD(_, _, _, _, _)
EvalD(w, GS, o, row, d) ==
  CASE d.kind = "ref" -> Val(w, GS, o, row, d.s, d.m)
    [] d.kind = "const" -> d.v
    [] d.kind = "bin" -> LET a == EvalD(w, GS, o, row, d.a) b == EvalD(w, GS, o, row, d.b) IN Arith(d.f, a, b)
FuzzyD(w, GS, o, row, d) ==
  CASE d.kind = "ref" -> RefFuzzy(w, GS, o, row, d.s, d.m)
    [] d.kind = "const" -> FALSE
    [] d.kind = "bin" -> FuzzyD(w, GS, o, row, d.a) \/ FuzzyD(w, GS, o, row, d.b)

RECURSIVE HavD(_, _, _, _, _)
HavD(w, GS, o, row, h) ==
  CASE h.op = "and" -> And3({HavD(w, GS, o, row, h.args[i]) : i \in 1..Len(h.args)})
    [] h.op = "or" -> Or3({HavD(w, GS, o, row, h.args[i]) : i \in 1..Len(h.args)})
    [] OTHER -> LET x == EvalD(w, GS, o, row, h.m)
                IN CASE h.op = "null" -> T3(IsNull(x)) [] h.op = "notnull" -> T3(~IsNull(x))
                     [] OTHER -> IF IsNull(x) THEN 2
                                 ELSE CASE h.f = "eq" -> T3(Same(x, h.v)) [] h.f = "ne" -> T3(~Same(x, h.v))
                                        [] h.f = "lt" -> T3(Less(x, h.v)) [] h.f = "le" -> T3(~Less(h.v, x))
                                        [] h.f = "gt" -> T3(Less(h.v, x)) [] h.f = "ge" -> T3(~Less(x, h.v))

NDims(o) == Len(o.sides[1].dims)
\* column offsets
RECURSIVE MetsBefore(_, _)
MetsBefore(o, s) == IF s = 1 THEN 0 ELSE MetsBefore(o, s - 1) + Len(o.sides[s - 1].mets)
DimCol(o, s, i) == (s - 1) * NDims(o) + i
MetCol(o, s, m) == Len(o.sides) * NDims(o) + MetsBefore(o, s) + m
DerCol(o, i) == Len(o.sides) * NDims(o) + MetsBefore(o, Len(o.sides)) + Len(o.sides[Len(o.sides)].mets) + i

ValOk(w, GS, o, row, s, m, x) ==
  IF s \notin row.part THEN IsNull(x) ELSE MetOk(w, GroupAt(GS, s, row.key).G, o.sides[s].mets[m], o.mode, x)
MetsMatch(w, GS, o, row, obs) ==
  /\ \A s \in DOMAIN GS : \A m \in 1..Len(o.sides[s].mets) : ValOk(w, GS, o, row, s, m, obs[MetCol(o, s, m)])
  /\ \A i \in 1..Len(o.derived) : FuzzyD(w, GS, o, row, o.derived[i])
                                  \/ Near(EvalD(w, GS, o, row, o.derived[i]), obs[DerCol(o, i)])
LabelsMatch(GS, o, row, obs) ==
  \A s \in DOMAIN GS : \A i \in 1..NDims(o) : Near(row.key[i], obs[DimCol(o, s, i)])
SomeLabel(GS, o, row, obs) ==     \* every dimension is shown by at least one side's column, the others NULL
  \A i \in 1..NDims(o) : /\ \E s \in DOMAIN GS : Near(row.key[i], obs[DimCol(o, s, i)])
                         /\ \A s \in DOMAIN GS : IsNull(obs[DimCol(o, s, i)]) \/ Near(row.key[i], obs[DimCol(o, s, i)])

Match(w, GS, o, row, obs, strict) ==
  MetsMatch(w, GS, o, row, obs) /\ (IF strict THEN LabelsMatch(GS, o, row, obs) ELSE SomeLabel(GS, o, row, obs))

HFuzzy(w, GS, o, row) == \E i \in 1..Len(o.having) : o.having[i].fz /\ FuzzyD(w, GS, o, row, o.having[i].h.m)
Kept(w, GS, o, X) == {row \in X : \A i \in 1..Len(o.having) : HavD(w, GS, o, row, o.having[i].h) = 1}

Explains(w, GS, o, X, strict) ==
  LET K == Kept(w, GS, o, X)
  IN /\ Len(o.rows) = (IF o.limit > 0 /\ o.limit < Cardinality(K) THEN o.limit ELSE Cardinality(K))
     /\ \A i \in 1..Len(o.rows) : \E row \in K : Match(w, GS, o, row, o.rows[i], strict)
     /\ o.limit > 0 \/ \A row \in K : \E i \in 1..Len(o.rows) : Match(w, GS, o, row, o.rows[i], strict)
     /\ \A i, j \in 1..Len(o.rows) : i # j => o.rows[i] # o.rows[j]

JudgeMerged(w, o) ==
  IF o.status # "ok" THEN "status:" \o o.status
  ELSE IF o.missing # <<>> THEN "column missing: " \o o.missing[1]
  ELSE LET GS == [s \in 1..Len(o.sides) |-> SideGroups(w, o.sides[s])]
           A == Aligned(GS, FALSE)  B == Aligned(GS, TRUE)  F == FirstOnly(GS)
       IN IF Explains(w, GS, o, A, TRUE) \/ Explains(w, GS, o, B, TRUE) THEN "ok"
          ELSE IF Explains(w, GS, o, F, TRUE) THEN "sides joined to the first side only"
          ELSE IF Explains(w, GS, o, A, FALSE) \/ Explains(w, GS, o, F, FALSE) THEN "dimension label missing"
          ELSE "merged rows"
=============================================================================
