----------------------------- MODULE SameModel -----------------------------
(* Projects in which much could depend on an order: views joined along several ways, several dates, filters of access,
   mappings, metrics over several fields and views; and requests that mention much at once.                              *)
EXTENDS Same
CONSTANTS NReq, MaxViews
VARIABLES p, reqs
vars == <<p, reqs>>
Pick(S) == {RandomElement(S)}
Flip(n) == RandomElement(1..n) = 1
Rep(n, F(_)) == [k \in 1..n |-> F(k)]
Init == p = [views |-> <<>>, joins |-> <<>>] /\ reqs = <<>>
View(k) == [date |-> RandomElement(1..4) > 1, second |-> Flip(2), filters |-> RandomElement({0, 0, 0, 0, 1, 2}), grant |-> Flip(6), sets |-> Flip(2),
            link |-> k = 1 \/ Flip(12), always |-> Flip(6), mapped |-> RandomElement(1..3) < 3, merged |-> RandomElement(0..MaxViews), style |-> RandomElement(1..4)]
RECURSIVE Seqs(_)
Seqs(T) == IF T = {} THEN <<>> ELSE LET a == CHOOSE a \in T : TRUE IN <<a>> \o Seqs(T \ {a})
Joins(n) == {[a |-> a, b |-> b, kind |-> RandomElement({"key", "key", "key", "one", "on", "both"})] : <<a, b>> \in {x \in (1..n) \X (1..n) : x[1] < x[2] /\ RandomElement(1..10) < 6}}
Project == /\ p.views = <<>>
           /\ \E n \in Pick(3..MaxViews) :
                \E J \in {Joins(n)} : p' = [views |-> [k \in 1..n |-> View(k)], joins |-> Seqs(J)]
           /\ UNCHANGED reqs
DimsOf(v) == {"aa", "bb", "cc", "dd", "num", "kk"} \cup (IF p.views[v].date THEN {"at_date", "at_week"} ELSE {}) \cup (IF p.views[v].second THEN {"seen_date", "seen_month"} ELSE {})
MetsOf(v) == {"total", "cnt", "filt", "ratio", "both", "late", "avg"} \cup (IF p.views[v].date THEN {"running", "ends"} ELSE {})
Js == {p.joins[k] : k \in 1..Len(p.joins)}
Near(v) == {v} \cup {j.b : j \in {j \in Js : j.a = v}} \cup {j.a : j \in {j \in Js : j.b = v}}
Far(v) == UNION {Near(u) : u \in Near(v)}
Some(v) == RandomElement(IF Flip(4) THEN Far(v) ELSE IF Flip(15) THEN 1..Len(p.views) ELSE Near(v))
Named == {"date", "week"} \cup (IF Cardinality({k \in 1..Len(p.views) : p.views[k].mapped}) > 1 THEN {"chan", "place"} ELSE {})
InDim(u) == [v |-> u, f |-> RandomElement(DimsOf(u))]
InMet(u) == [v |-> u, f |-> RandomElement(MetsOf(u))]
MDim(v) == IF Flip(6) THEN [v |-> 0, f |-> RandomElement(Named)] ELSE InDim(Some(v))
Cond(v) == [ref |-> MDim(v), form |-> RandomElement(1..8)]
Forms == <<"plain", "plain", "plain", "plain", "plain", "nested", "nested", "funnel", "among", "queries", "mql", "mql", "validate", "lists", "joinable">>
Of(v) == [metrics |-> [k \in 1..RandomElement({0, 1, 1, 1, 2, 2, 3}) |-> IF k = 1 \/ Flip(2) THEN InMet(v) ELSE InMet(Some(v))],
          dims |-> [k \in 1..RandomElement({1, 1, 1, 2, 2, 3}) |-> MDim(v)],
          where |-> [k \in 1..RandomElement({0, 0, 1, 2, 3}) |-> Cond(v)], having |-> Flip(4), order |-> RandomElement({0, 0, 0, 1, 2}), limit |-> Flip(4),
          form |-> Forms[RandomElement(1..Len(Forms))], user |-> RandomElement(0..2), dialect |-> RandomElement(1..4)]
Req(x) == Of(RandomElement(1..Len(p.views)))
Ask == /\ p.views # <<>> /\ Len(reqs) < NReq
       /\ \E r \in {Req(1)} : reqs' = Append(reqs, r)
       /\ UNCHANGED p
Next == Project \/ Ask
Emit == Len(reqs) = NReq => PrintT(<<"CASE", ToJson([p |-> p, reqs |-> reqs])>>)
=============================================================================
