------------------------------ MODULE JoinGraph ------------------------------
(* Views, their identifiers, and the joins these declare.  A model m is a sequence of views; a view is a set of
   identifiers [k, n, fan, only, as, ref, rel, jt]:
     k = "primary" / "foreign": an identifier named n; fan: views it may fan out to; only: views it may be used with
         (empty: all); as: TRUE when a primary identifier moves to an alias view (number 100 + v) of its own
     k = "join": an explicit join to view ref with relationship rel and join type jt                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pref(rel) == CASE rel = "one_to_one" -> 1 [] rel = "many_to_one" -> 2 [] rel = "one_to_many" -> 3 [] rel = "many_to_many" -> 4
Fanout(rel) == rel \in {"one_to_many", "many_to_many"}
Inverse(rel) == CASE rel = "one_to_many" -> "many_to_one" [] rel = "many_to_one" -> "one_to_many" [] OTHER -> rel

Moved(i) == i.k = "primary" /\ i.as
Nodes(m) == (1..Len(m)) \cup {100 + v : v \in {u \in 1..Len(m) : \E i \in m[u] : Moved(i)}}
IdsOf(m, x) == IF x < 100 THEN {i \in m[x] : ~Moved(i)} ELSE {i \in m[x - 100] : Moved(i)}

Col(x, n) == ToString(x) \o ".k" \o ToString(n)
OnText(i, own) == {{Col(own, i.n), Col(i.ref, i.n)}, {Col(own, 0)}}     \* an explicit join also asks for a flag of its own view

Relation(i, j) == CASE i.k = "foreign" /\ j.k = "primary" -> "many_to_one"
                    [] i.k = "primary" /\ j.k = "primary" -> "one_to_one"
                    [] i.k = "primary" /\ j.k = "foreign" -> "one_to_many"
                    [] OTHER -> "many_to_many"
\* every way the declarations allow to join b to a (already joined)
Ways(m, a, b) ==
  LET byId == {[rel |-> Relation(p[1], p[2]), on |-> {{Col(a, p[1].n), Col(b, p[2].n)}}, jt |-> "left"] :
                 p \in {q \in IdsOf(m, a) \X IdsOf(m, b) :
                          /\ q[1].k # "join" /\ q[2].k # "join" /\ q[1].n = q[2].n
                          /\ (q[1].only = {} \/ b \in q[1].only) /\ (q[2].only = {} \/ a \in q[2].only)
                          /\ (Fanout(Relation(q[1], q[2])) => b \in q[1].fan)}}
      stated == {[rel |-> i.rel, on |-> OnText(i, a), jt |-> i.jt] : i \in {q \in IdsOf(m, a) : q.k = "join" /\ q.ref = b}}
      turned == {[rel |-> Inverse(i.rel), on |-> OnText(i, b), jt |-> i.jt] :
                   i \in {q \in IdsOf(m, b) : q.k = "join" /\ q.ref = a /\ ~Fanout(Inverse(q.rel))}}
  IN byId \cup stated \cup turned
\* the preferred ones: least fan-out first
Best(m, a, b) == LET W == Ways(m, a, b) IN {w \in W : \A u \in W : Pref(w.rel) <= Pref(u.rel)}

Edges(m) == {e \in Nodes(m) \X Nodes(m) : e[1] # e[2] /\ Ways(m, e[1], e[2]) # {}}
RECURSIVE Grow(_, _)
Grow(E, S) == LET T == S \cup {e[2] : e \in {x \in E : x[1] \in S}} IN IF T = S THEN S ELSE Grow(E, T)
Reach(E, r) == Grow(E, {r})
\* the views of need can be put into one tree of joins
Joinable(E, N, need) == \E r \in N : need \subseteq Reach(E, r)

(* Merging results.  dated: views whose metric has a date d (in the same view) with timeframes tf[v]; maps: sets of views
   whose dimension x is mapped to each other.  A field is <<view, kind>>, kind "x" (dimension), "n" (metric), or a
   timeframe of the date d.  A metric and a field that cannot be joined can still be queried together when both are
   trended over a date with a common timeframe, or a mapping carries the dimension over to the metric's side.        *)
Same(E, v, w) == w \in Reach(E, v) /\ v \in Reach(E, w)
Meet(E, dated, tf, maps, v, f) ==
  LET w == f[1]
  IN /\ v \in dated
     /\ CASE f[2] = "n" -> w \in dated /\ tf[v] \cap tf[w] # {}
          [] f[2] = "x" -> \E S \in maps : w \in S /\ \E u \in S \ {w} : Same(E, u, v) /\ \E z \in dated : Same(E, w, z)
          [] OTHER -> w \in dated /\ f[2] \in tf[v] \cap tf[w]
Shared(E, N, dated, tf, maps, v, f) == Joinable(E, N, {v, f[1]}) \/ Meet(E, dated, tf, maps, v, f)

\* a plan [base, joins: seq of [view, kind, on]] is a tree of declared joins
RECURSIVE TreeFrom(_, _, _, _)
TreeFrom(m, have, joins, k) ==
  IF k > Len(joins) THEN TRUE
  ELSE LET j == joins[k]
       IN /\ j.view \in Nodes(m) /\ j.view \notin have
          /\ \E u \in have : \E w \in Best(m, u, j.view) : w.on = j.on /\ w.jt = j.kind
          /\ TreeFrom(m, have \cup {j.view}, joins, k + 1)
PlanViews(p) == {p.base} \cup {p.joins[i].view : i \in 1..Len(p.joins)}
=============================================================================
