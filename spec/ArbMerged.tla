------------------------------ MODULE ArbMerged ------------------------------
(* An arbitrary merged query: the stand-alone queries' results, joined one after the other to the first one.
   obs.parts  sequence of results (sequences of rows) of the stand-alone queries
   obs.joins  for part 2, 3, ...: [kind |-> "left"/"inner"/"full", on |-> <<[a |-> column of part 1, b |-> own column]>>]
   obs.cols   the columns shown, in order: [q |-> part, i |-> column of the part]
   obs.where  conditions over those columns (where and having alike);  obs.order over output columns;  obs.limit
   A joined row is a sequence of row numbers, one per part, 0 = no row there.                                     *)
EXTENDS Rel

Matches(o, j, at, k) ==
  /\ at[1] # 0
  /\ \A c \in 1..Len(o.joins[j - 1].on) :
       LET a == o.parts[1][at[1]][o.joins[j - 1].on[c].a]  b == o.parts[j][k][o.joins[j - 1].on[c].b]
       IN ~IsNull(a) /\ ~IsNull(b) /\ Same(a, b)

ExtendBy(o, R, j) ==
  LET kind == o.joins[j - 1].kind
      N == 1..Len(o.parts[j])
      hit == UNION {{Append(at, k) : k \in {k \in N : Matches(o, j, at, k)}} : at \in R}
      lone == IF kind = "inner" THEN {} ELSE {Append(at, 0) : at \in {at \in R : ~\E k \in N : Matches(o, j, at, k)}}
      other == IF kind # "full" THEN {}
               ELSE {Append([i \in 1..(j - 1) |-> 0], k) : k \in {k \in N : ~\E at \in R : Matches(o, j, at, k)}}
  IN hit \cup lone \cup other

RECURSIVE AllParts(_, _, _)
AllParts(o, R, j) == IF j > Len(o.parts) THEN R ELSE AllParts(o, ExtendBy(o, R, j), j + 1)
Rows(o) == AllParts(o, {<<k>> : k \in 1..Len(o.parts[1])}, 2)

CellOf(o, at, c) == IF at[c.q] = 0 THEN NULL ELSE o.parts[c.q][at[c.q]][c.i]
Shown(o, at) == [i \in 1..Len(o.cols) |-> CellOf(o, at, o.cols[i])]

\* conditions: [op, c |-> column] in the vocabulary of Rel
RECURSIVE Lift(_, _, _)
Lift(o, at, h) ==
  CASE h.op \in {"and", "or"} -> [op |-> h.op, args |-> [i \in 1..Len(h.args) |-> Lift(o, at, h.args[i])]]
    [] h.op = "not" -> [op |-> "not", c |-> Lift(o, at, h.c)]
    [] OTHER -> [h EXCEPT !.e = [op |-> "const", v |-> CellOf(o, at, h.e)]]
NoWorld == [x |-> <<>>]
Keep(o) == {at \in Rows(o) : \A i \in 1..Len(o.where) : EvalC(NoWorld, <<>>, Lift(o, at, o.where[i])) = 1}

\* nl: NULLs come last; otherwise (SQL Server and Druid, which cannot be told) they are the lowest values
RECURSIVE Before(_, _, _, _, _)   \* "lt" / "eq" / "gt"
Before(a, b, ord, k, nl) ==
  IF k > Len(ord) THEN "eq"
  ELSE LET x == a[ord[k].i] y == b[ord[k].i]
       IN IF x = y \/ (IsNum(x) /\ IsNum(y) /\ Same(x, y)) THEN Before(a, b, ord, k + 1, nl)
          ELSE IF IsNull(x) THEN (IF nl \/ ord[k].desc THEN "gt" ELSE "lt") ELSE IF IsNull(y) THEN (IF nl \/ ord[k].desc THEN "lt" ELSE "gt")
          ELSE IF Less(x, y) = ~ord[k].desc THEN "lt" ELSE "gt"

JudgeArb(o) ==
  IF o.status # "ok" THEN "status:" \o o.status
  ELSE IF o.names # o.want THEN "columns"
  ELSE LET K == Keep(o)
           total == Cardinality(K)
           n == Len(o.rows)
           lim == IF o.limit > 0 /\ o.limit < total THEN o.limit ELSE total
           S == {Shown(o, at) : at \in K}
           times(r) == Cardinality({at \in K : Shown(o, at) = r})
           seen(r) == Cardinality({i \in 1..n : o.rows[i] = r})
       IN IF n # lim THEN "number of rows"
          ELSE IF \E i \in 1..n : o.rows[i] \notin S THEN "row not in the join"
          ELSE IF \E i \in 1..n : seen(o.rows[i]) > times(o.rows[i]) THEN "row repeated"
          ELSE IF \E i \in 1..(n - 1) : Before(o.rows[i], o.rows[i + 1], o.order, 1, o.nullslast) = "gt" THEN "order"
          ELSE IF n > 0 /\ \E r \in S : Before(r, o.rows[n], o.order, 1, o.nullslast) = "lt" /\ seen(r) < times(r) THEN "limit keeps the wrong rows"
          ELSE "ok"
=============================================================================
