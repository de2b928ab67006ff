-------------------------- MODULE JoinGraphTrace --------------------------
(* Recorded answers about a model.  obs: [m, qs: <<[need, status, base, joins]>>, mode] or joinable / label answers. *)
EXTENDS JoinGraph, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict
vars == <<i, verdict>>
ToSet(q) == {q[k] : k \in 1..Len(q)}
Id(r) == [k |-> r.k, n |-> r.n, fan |-> ToSet(r.fan), only |-> ToSet(r.only), as |-> r.as, ref |-> r.ref, rel |-> r.rel, jt |-> r.jt]
Model(o) == [v \in 1..Len(o.m) |-> {Id(o.m[v][k]) : k \in 1..Len(o.m[v])}]
On(q) == {ToSet(q[k]) : k \in 1..Len(q)}
JudgePlan(M, E, N, q) ==
  LET need == ToSet(q.need)
      ok == Joinable(E, N, need)
  IN IF q.status = "raised JoinError" THEN (IF ok THEN "join error though a join tree exists" ELSE "ok")
     ELSE IF q.status # "ok" THEN "status:" \o q.status
     ELSE IF ~ok THEN "joined though no join tree exists"
     ELSE LET p == [base |-> q.base, joins |-> [k \in 1..Len(q.joins) |-> [view |-> q.joins[k].view, kind |-> q.joins[k].kind, on |-> On(q.joins[k].on)]]]
          IN IF ~(need \subseteq PlanViews(p)) THEN "a needed view is missing"
             ELSE IF ~(p.base \in N /\ TreeFrom(M, {p.base}, p.joins, 1)) THEN "joins other than declared"
             ELSE "ok"
\* reported joinable views of view q.v
JudgeReach(E, N, q) ==
  IF q.status # "ok" THEN "status:" \o q.status
  ELSE IF ToSet(q.got) = {w \in N : w # q.v /\ Joinable(E, N, {q.v, w})} THEN "ok" ELSE "joinable views"
\* pairs of views whose fields share a label
JudgeLabels(E, N, q) ==
  IF q.status # "ok" THEN "status:" \o q.status
  ELSE LET got == {ToSet(q.got[k]) : k \in 1..Len(q.got)}
       IN IF got = {{p[1], p[2]} : p \in {x \in N \X N : x[1] < x[2] /\ Joinable(E, N, {x[1], x[2]})}} THEN "ok" ELSE "shared labels"
\* fields reported as joinable with the fields of the views q.vs: those of the views joinable with one of them
JudgeFields(E, N, q) ==
  IF q.status # "ok" THEN "status:" \o q.status
  ELSE IF ToSet(q.got) = {w \in N : \E v \in ToSet(q.vs) : Joinable(E, N, {v, w})} THEN "ok" ELSE "joinable fields"
\* metric of view q.v: fields sharing a label with it (q.labels), fields it can be queried with (q.runs) among q.fields
JudgeMerge(E, N, q) ==
  LET maps == {ToSet(q.maps[k]) : k \in 1..Len(q.maps)}
      tf == [v \in 1..Len(q.tf) |-> ToSet(q.tf[v])]
      dated == {v \in 1..Len(q.tf) : tf[v] # {}}
      fs == {q.fields[k] : k \in 1..Len(q.fields)}
      want == {f \in fs : Shared(E, N, dated, tf, maps, q.v, f)}
      labels == {q.labels[k] : k \in 1..Len(q.labels)}
      runs == {q.runs[k] : k \in 1..Len(q.runs)}
  IN IF q.status # "ok" THEN "status:" \o q.status
     ELSE IF labels # want THEN "metric labels" \o ToString(<<labels \ want, want \ labels>>)
     ELSE LET \* two fields of one mapping in views that join
              twice == {f \in want \ runs : f[2] = "x" /\ \E S \in maps : f[1] \in S /\ \E a, b \in S : a # b /\ Joinable(E, N, {a, b})}
              \* a mapping to a view that the metric's view is only joined to in one direction
              through == {f \in runs \ want : f[2] = "x" /\ \E S \in maps : f[1] \in S /\ \E u \in S \ {f[1]} : Joinable(E, N, {u, q.v})}
              \* the mapped dimension's own view has no date
              dateless == {f \in want \ runs : f[2] = "x" /\ f[1] \notin dated}
          IN IF (runs \ want) \ through # {} \/ (want \ runs) \ (twice \cup dateless) # {} THEN "queryable" \o ToString(<<runs \ want, want \ runs>>)
             ELSE IF twice # {} THEN "two fields of a mapping on one side"
             ELSE IF dateless # {} THEN "mapped dimension of a view without a date"
             ELSE IF through # {} THEN "mapped through a join"
             ELSE "ok"
RECURSIVE FirstBad(_, _, _, _, _)
FirstBad(M, E, N, qs, k) ==
  IF k > Len(qs) THEN "ok"
  ELSE LET q == qs[k]
           v == CASE q.mode = "plan" -> JudgePlan(M, E, N, q) [] q.mode = "reach" -> JudgeReach(E, N, q)
                  [] q.mode = "labels" -> JudgeLabels(E, N, q) [] q.mode = "merge" -> JudgeMerge(E, N, q)
                  [] q.mode = "fields" -> JudgeFields(E, N, q)
       IN IF v = "ok" THEN FirstBad(M, E, N, qs, k + 1) ELSE v \o "@" \o ToString(k)
JudgeModel(o) == LET M == Model(o) E == Edges(M) N == Nodes(M) IN FirstBad(M, E, N, o.qs, 1)
Init == i \in 1..Len(Obs) /\ verdict = "?"
Next == /\ verdict = "?"
        /\ verdict' = JudgeModel(Obs[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"VERDICT", i, verdict'>>)
        /\ UNCHANGED i
=============================================================================
