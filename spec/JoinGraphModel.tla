--------------------------- MODULE JoinGraphModel ---------------------------
(* A model being written down, one identifier after the other; the laws of its join graph; finished models are
   printed for replay against the code. *)
EXTENDS JoinGraph, Json
CONSTANTS NV, NN, NJ
\* NN = NV + 10: references only, view v refers to the primary identifier n = u of view u
VARIABLES m, steps, goal
vars == <<m, steps, goal>>
Rec(k, n, fan, only, as, ref, rel, jt) == [k |-> k, n |-> n, fan |-> fan, only |-> only, as |-> as, ref |-> ref, rel |-> rel, jt |-> jt]
Has(v, n) == \E i \in m[v] : i.n = n
Put(v, i) == m' = [m EXCEPT ![v] = @ \cup {i}]
\* subsets of the views to restrict or fan out to
Some == {{}} \cup {{v} : v \in 1..NV} \cup {1..NV}
AddId(v, n, k) == /\ ~Has(v, n)
                  /\ \E fan \in Some : \E only \in {{}} \cup {{u} : u \in 1..NV} : \E as \in BOOLEAN :
                        /\ (as => (k = "primary" /\ only = {} /\ ~\E i \in m[v] : Moved(i)))
                        /\ Put(v, Rec(k, n, fan, only, as, 0, "", "left"))
AddPlain(v, n, k) == ~Has(v, n) /\ Put(v, Rec(k, n, {}, {}, FALSE, 0, "", "left"))
AddJoin(v, u) ==
  /\ v # u /\ NJ > 0
  /\ ~\E i \in m[v] : i.k = "join" /\ i.ref = u
  /\ ~\E i \in m[u] : i.k = "join" /\ i.ref = v
  /\ \E rel \in {"one_to_one", "many_to_one", "one_to_many", "many_to_many"} : \E jt \in {"left", "inner", "full"} :
       Put(v, Rec("join", 50 + u, {}, {}, FALSE, u, rel, jt))
Init == m = [v \in 1..NV |-> {}] /\ steps = 0 /\ goal \in (IF NN = NV + 10 THEN (NV - 1)..(NV + 2) ELSE NV..(3 * NV + 1))
Next == /\ steps < goal /\ steps' = steps + 1 /\ UNCHANGED goal
        /\ \E v \in 1..NV : \/ \E n \in 1..NN : \E k \in {"primary", "foreign"} : AddPlain(v, n, k)
                            \/ \E n \in 1..NN : \E k \in {"primary", "foreign"} : AddId(v, n, k)
                            \/ \E u \in 1..NV : AddJoin(v, u)
\* the same, one random choice at a time (for long random models)
Pick(S) == {RandomElement(S)}
Flip(k) == RandomElement(1..k) = 1
NextRef == /\ steps < goal /\ steps' = steps + 1 /\ UNCHANGED goal
           /\ \E v \in Pick(1..NV) : \E u \in Pick(1..NV) :
                IF v = u \/ Has(v, u) \/ Has(u, v) THEN UNCHANGED m
                ELSE \E fan \in (IF Flip(8) THEN {{v}} ELSE {{}}) :
                       LET p == Rec("primary", u, fan, {}, FALSE, 0, "", "left")
                           f == Rec("foreign", u, {}, {}, FALSE, 0, "", "left")
                           to == IF \E i \in m[u] : i.n = u THEN m[u] ELSE m[u] \cup {p}
                       IN m' = [m EXCEPT ![v] = @ \cup {f}, ![u] = to]
NextOne == /\ steps < goal /\ steps' = steps + 1 /\ UNCHANGED goal
           /\ \E v \in Pick(1..NV) : \E n \in Pick(1..NN) : \E k \in Pick({"primary", "foreign", "join"}) :
                IF k = "join" /\ NJ > 0 /\ Flip(2)
                THEN \E u \in Pick(1..NV) :
                       IF v = u \/ (\E i \in m[v] : i.k = "join" /\ i.ref = u) \/ (\E i \in m[u] : i.k = "join" /\ i.ref = v) THEN UNCHANGED m
                       ELSE \E rel \in Pick({"one_to_one", "many_to_one", "one_to_many", "many_to_many"}) : \E jt \in Pick({"left", "inner", "full"}) :
                              Put(v, Rec("join", 50 + u, {}, {}, FALSE, u, rel, jt))
                ELSE LET kk == IF k = "join" THEN "foreign" ELSE k
                     IN IF Has(v, n) THEN UNCHANGED m
                        ELSE \E fan \in (IF Flip(2) THEN Pick(Some) ELSE {{}}) : \E only \in (IF Flip(5) THEN Pick({{u} : u \in 1..NV}) ELSE {{}}) :
                             \E as \in (IF Flip(4) THEN {kk = "primary" /\ only = {} /\ ~\E i \in m[v] : Moved(i)} ELSE {FALSE}) :
                               Put(v, Rec(kk, n, fan, only, as, 0, "", "left"))
Finish == steps = goal /\ steps' = goal + 1 /\ UNCHANGED <<m, goal>> /\ PrintT(<<"CASE", ToJson(m)>>)
NextGen == (IF NN = NV + 10 THEN NextRef ELSE NextOne) \/ Finish
\* the laws
Monotone == [][\A S \in SUBSET (1..NV) :
                 (Cardinality(S) > 1 /\ Joinable(Edges(m), Nodes(m), S) /\ Nodes(m) = Nodes(m')) => Joinable(Edges(m'), Nodes(m'), S)]_vars
SymmetricWays == \A e \in Edges(m) : \A w \in Ways(m, e[1], e[2]) :
                   ~Fanout(Inverse(w.rel)) => \E u \in Ways(m, e[2], e[1]) : u.on = w.on /\ u.rel = Inverse(w.rel)
NoSilentFanout == \A e \in Edges(m) : \A w \in Ways(m, e[1], e[2]) :
                    Fanout(w.rel) => \E i \in IdsOf(m, e[1]) : e[2] \in i.fan \/ (i.k = "join" /\ i.ref = e[2])
PairwiseEnough == \A a, b \in Nodes(m) : Joinable(Edges(m), Nodes(m), {a, b}) <=> Joinable(Edges(m), Nodes(m), {b, a})
=============================================================================
