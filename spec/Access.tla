------------------------------- MODULE Access -------------------------------
(* Row-level access filters.
     access   sequence of [view, attr, e, numeric]   the filters the model declares
     user     sequence of [attr, s]                  the current user; s the value, in the filter language
     uses     sequence of view names                 the views a (sub)query takes fields from
   The conditions a query must obey are those of the filters of the views it uses whose attribute the user has. *)
EXTENDS QuerySem

Active(access, user, uses) ==
  {<<i, j>> \in (1..Len(access)) \X (1..Len(user)) :
     access[i].attr = user[j].attr /\ access[i].view \in SeqRange(uses)}

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})

Restriction(access, user, uses) ==
  LET A == SetToSeq0(Active(access, user, uses))
  IN [op |-> "and", args |-> [k \in 1..Len(A) |-> [op |-> "ftext", e |-> access[A[k][1]].e, s |-> user[A[k][2]].s,
                                                    numeric |-> access[A[k][1]].numeric]]]
Both(a, b) == [op |-> "and", args |-> <<a, b>>]

(* kind "direct": the rows are those of the query with the restriction added to its row condition *)
Restricted(o) ==
  [o EXCEPT !.q.where = Both(@, Restriction(o.access, o.user, o.uses)),
            !.q.subs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.where = Both(@, Restriction(o.access, o.user, o.subuses[i]))]]]

(* kind "twin": a query for which the user is restricted gives, on all the data, the rows that the same query gives an
   unrestricted connection on the permitted part of the data.
     sides  sequence of [view, plan, uses]    the views the query starts from, and what each side joins to them
     kept   sequence of sequences             per side, the row numbers left in the reduced database            *)
Permitted(w, o, s) ==
  LET R == Restriction(o.access, o.user, s.uses)
  IN {k \in 1..Len(w[s.view]) : \E r \in Joined(w, s.plan) : r[s.view] = k /\ EvalC(w, r, R) = 1}

BagEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                 Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})

JudgeTwin(w, o) ==
  IF \E i \in 1..Len(o.sides) : Permitted(w, o, o.sides[i]) # SeqRange(o.kept[i]) THEN "harness: wrong reduced database"
  ELSE IF o.status # "ok" THEN "status:" \o o.status
  ELSE IF o.twinstatus # "ok" THEN "twin status:" \o o.twinstatus
  ELSE IF o.cols # o.twincols THEN "columns"
  ELSE IF ~BagEq(o.rows, o.twinrows) THEN "rows the user may not see"
  ELSE "ok"

JudgeAccess(w, o) == IF o.kind = "direct" THEN JudgeQuery(w, Restricted(o)) ELSE JudgeTwin(w, o)
=============================================================================
