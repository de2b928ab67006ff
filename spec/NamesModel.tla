----------------------------- MODULE NamesModel -----------------------------
(* Small projects whose names run into each other.                                                                        *)
EXTENDS Names
CONSTANTS NViews, NFields, Flat, Bases, TimeFrames, Intervals
VARIABLES w, goal
vars == <<w, goal>>
Pick(S) == {RandomElement(S)}
Init == w = [v \in 1..NViews |-> [denied |-> FALSE, fields |-> <<>>]] /\ goal \in 2..NFields
Seqs(S) == LET RECURSIVE Q(_)
               Q(T) == IF T = {} THEN <<>> ELSE LET a == CHOOSE a \in T : TRUE IN <<a>> \o Q(T \ {a})
           IN Q(S)
F(name, kind, frames, m, h, d) == [name |-> name, kind |-> kind, frames |-> frames, measure |-> m, hidden |-> h, denied |-> d]
Flip(n) == RandomElement(1..n) = 1
Put(v, f) == w' = [w EXCEPT ![v].fields = Append(@, f)]
Next == /\ \E v \in {v \in 1..NViews : Len(w[v].fields) < goal} :
             \E k \in Pick(1..6) : \E h \in Pick({1, 2, 3, 4, 5, 6}) :
               IF k < 4 THEN \E n \in Pick(Flat) : Put(v, F(n, "plain", <<>>, Flip(2), h = 1, h = 2))
               ELSE IF k < 6 THEN \E n \in Pick(Bases) : \E t \in Pick(SUBSET TimeFrames \ {{}}) : Put(v, F(n, "time", Seqs(t), FALSE, h = 1, h = 2))
               ELSE \E n \in Pick(Bases) : \E t \in Pick(SUBSET Intervals \ {{}}) : Put(v, F(n, "duration", Seqs(t), FALSE, h = 1, h = 2))
        /\ UNCHANGED goal
Full == \A v \in 1..NViews : Len(w[v].fields) = goal
Emit == Full => PrintT(<<"CASE", ToJson(w)>>)
----------------------------------------------------------------------------
Refs == UNION {UNION {{Text(w[v].fields[f], k) : k \in Frames(w[v].fields[f])} : f \in 1..Len(w[v].fields)} : v \in 1..NViews}
Qualify == \A n \in Refs : Denotes(w, 0, n) # None =>
             LET d == Denotes(w, 0, n) IN Denotes(w, d[1], n) = d
BareNeedsUnique == \A n \in Refs : Denotes(w, 0, n) # None => Cardinality({v \in 1..NViews : Denotes(w, v, n) # None /\ Denotes(w, v, n)[2] # 0}) = 1
=============================================================================
