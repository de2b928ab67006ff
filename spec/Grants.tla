------------------------------- MODULE Grants -------------------------------
(* Who may reach what.  A grant names an attribute of the user and the values allowed; an object (view, field, dashboard) *)
(* requires a set of grants.  w: [grants: <<[attr, allowed]>>, views: <<[req]>>, fields: <<[view, req, refs, hidden,      *)
(* measure]>>, boards: <<[req]>>]; a user: [none, attrs: <<[attr, value]>>]; req and refs: sequences of numbers.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
ToSet(q) == {q[k] : k \in 1..Len(q)}

Satisfies(w, u, g) ==
    LET mine == {k \in 1..Len(u.attrs) : u.attrs[k].attr = w.grants[g].attr}
    IN u.none \/ mine = {} \/ \E k \in mine : u.attrs[k].value \in ToSet(w.grants[g].allowed)
All(w, u, req) == \A g \in ToSet(req) : Satisfies(w, u, g)

View(w, u, v)  == All(w, u, w.views[v].req)
Field(w, u, f) == All(w, u, w.fields[f].req) /\ View(w, u, w.fields[f].view)
Board(w, u, d) == All(w, u, w.boards[d].req)

Views(w, u)  == {v \in 1..Len(w.views) : View(w, u, v)}
Fields(w, u) == {f \in 1..Len(w.fields) : Field(w, u, f)}
Boards(w, u) == {d \in 1..Len(w.boards) : Board(w, u, d)}

\* everything a field is made of: itself and, again and again, the fields it refers to
RECURSIVE Within(_, _)
Within(w, S) == LET T == S \cup UNION {ToSet(w.fields[f].refs) : f \in S} IN IF T = S THEN S ELSE Within(w, T)

\* a question that uses the fields S can be asked only by users who can reach all of them and what they are made of
Usable(w, u, S) == Within(w, S) \subseteq Fields(w, u)
=============================================================================
