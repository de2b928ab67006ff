------------------------------ MODULE SetsModel ------------------------------
(* Small projects with sets made of sets.  A set refers to sets declared before it only, so every one has an expansion.   *)
EXTENDS Sets
CONSTANTS NViews, NSets, NItems, Names, SetNames, Frames
VARIABLES w, goal
Pick(S) == {RandomElement(S)}
Flip(n) == RandomElement(1..n) = 1
Seqs(S) == LET RECURSIVE Q(_)
               Q(T) == IF T = {} THEN <<>> ELSE LET a == CHOOSE a \in T : TRUE IN <<a>> \o Q(T \ {a})
           IN Q(S)
Field(n, g) == [name |-> n, group |-> g, frames |-> IF g THEN Seqs(Frames) ELSE <<>>, denied |-> Flip(8)]
Init == /\ goal \in 1..NSets
        /\ w = [views |-> [v \in 1..NViews |-> [denied |-> FALSE, fields |-> <<>>]], sets |-> <<>>]
FieldsOf(v) == UNION {{Texts(v, w.views[v].fields[k])[j][2] : j \in 1..Len(Texts(v, w.views[v].fields[k]))} : k \in 1..Len(w.views[v].fields)}
Declare == /\ \E v \in {v \in 1..NViews : w.views[v].fields = <<>>} :
                \E N \in Pick({N \in SUBSET Names : Cardinality(N) > 1}) :
                  LET q == Seqs(N) IN w' = [w EXCEPT !.views[v].fields = [k \in 1..Len(q) |-> Field(q[k], Flip(4))], !.views[v].denied = Flip(12)]
           /\ UNCHANGED goal
Item(v) == LET neg == Flip(3)
               r == RandomElement(1..10)
               u == RandomElement(IF Flip(3) THEN 1..NViews ELSE {0})
               in == IF u = 0 THEN v ELSE u
           IN IF r <= 4 THEN [neg |-> neg, kind |-> "field", view |-> u, name |-> RandomElement(FieldsOf(in))]
              ELSE IF r <= 6 THEN [neg |-> neg, kind |-> "all", view |-> 0, name |-> "ALL_FIELDS"]
              ELSE [neg |-> neg, kind |-> "set", view |-> u, name |-> RandomElement(SetNames)]
\* a set item is allowed where it leads to sets declared so far: the new one must not be what it finds
Fine(v, name, it) == it.kind # "set" \/
    (LET W == [w EXCEPT !.sets = Append(@, [view |-> v, name |-> name, items |-> <<>>])] IN Find(W, v, it) # Len(W.sets))
\* nor may a later set of this name take the place of what earlier ones mean
Fresh(v, name) == \A k \in 1..Len(w.sets) : \A j \in 1..Len(w.sets[k].items) :
    LET it == w.sets[k].items[j] IN it.kind = "set" =>
       LET W == [w EXCEPT !.sets = Append(@, [view |-> v, name |-> name, items |-> <<>>])] IN Find(W, w.sets[k].view, it) = Find(w, w.sets[k].view, it)
Add == /\ \A v \in 1..NViews : w.views[v].fields # <<>>
       /\ Len(w.sets) < goal
       /\ \E v \in Pick(1..NViews), name \in Pick(SetNames), n \in Pick(1..NItems) :
            LET q == [k \in 1..n |-> Item(v)]
                items == SelectSeq(q, LAMBDA it : Fine(v, name, it))
            IN IF items # <<>> /\ Fresh(v, name) /\ ~\E k \in 1..Len(w.sets) : w.sets[k].view = v /\ w.sets[k].name = name
               THEN w' = [w EXCEPT !.sets = Append(@, [view |-> v, name |-> name, items |-> items])] ELSE UNCHANGED w
       /\ UNCHANGED goal
Next == Declare \/ Add
Full == Len(w.sets) = goal
Emit == Full => PrintT(<<"CASE", ToJson(w)>>)
----------------------------------------------------------------------------
\* laws
ToSet(q) == {q[k] : k \in 1..Len(q)}
NoTwice == \A k \in 1..Len(w.sets) : LET e == Expand(w, w.sets[k].view, w.sets[k].items) IN Cardinality(ToSet(e)) = Len(e)
OrderOfRemovals == \A k \in 1..Len(w.sets) :
    LET s == w.sets[k]
        minus == SelectSeq(s.items, LAMBDA it : it.neg) plus == SelectSeq(s.items, LAMBDA it : ~it.neg)
    IN Expand(w, s.view, minus \o plus) = Expand(w, s.view, s.items)
=============================================================================
