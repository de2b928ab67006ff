------------------------------ MODULE MqlTrace ------------------------------
(* What MQL texts were answered with, next to the answers of the structured arguments they mean.                           *)
(* obs: [text: lexemes, btext, how, mql, a, b: [status, cols, rows], full: rows of a without its limit, first, order, nulls, *)
(*       ends: what the SQL must end with, ended, conn: "same" | what is different about the connection]                    *)
EXTENDS Mql, Shape, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict
Whole == {"bare", "star", "alias", "nested", "with"}
Rows(q) == [k \in 1..Len(q) |-> q[k]]
SameBag(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Bag(x, x[k]) = Bag(y, x[k])
JudgeAround(o) == IF SameBag(o.mql.rows, Around(o.how, o.a.rows, o.b.rows)) THEN "ok" ELSE "rows around: " \o o.how
\* the order is that of the whole answer only where the statement is all there is
JudgeWhole(o) ==
  LET p == JudgePart([status |-> o.mql.status, cols |-> o.mql.cols, want |-> o.a.cols, rows |-> o.mql.rows, full |-> o.full, first |-> o.first,
                      order |-> IF o.how = "bare" THEN o.order ELSE <<>>, nulls |-> o.nulls])
  IN IF p # "ok" THEN p ELSE IF o.first = <<>> /\ ~SameBag(o.mql.rows, o.a.rows) THEN "rows" ELSE "ok"
Judge(o) ==
  LET m == Meaning(o.text) IN
  IF m.st = "free" THEN "ok"
  ELSE IF m.st = "refused" THEN (IF o.mql.status = "ok" THEN "a broken statement was answered" ELSE IF o.mql.status = "refused" THEN "ok" ELSE "status:" \o o.mql.status)
  ELSE IF o.a.status # "ok" \/ (o.btext # <<>> /\ o.b.status # "ok") THEN (IF o.mql.status = "ok" THEN "MQL answers what the arguments do not" ELSE "ok")
  ELSE IF o.mql.status # "ok" THEN "status:" \o o.mql.status
  ELSE IF o.ended # o.ends THEN "end of the statement"
  ELSE IF o.conn # "same" THEN "connection: " \o o.conn
  ELSE IF o.how \in Whole THEN JudgeWhole(o) ELSE JudgeAround(o)
Init == i \in 1..Len(Obs) /\ verdict = "read"
Next == /\ verdict = "read"
        /\ LET v == Judge(Obs[i]) IN verdict' = IF v = "ok" \/ PrintT(<<"VERDICT", i, v>>) THEN v ELSE "x"
        /\ UNCHANGED i
=============================================================================
