-------------------------------- MODULE Sets --------------------------------
(* Sets of fields as algebra: what a set lists and takes in, without what it and only it leaves out.                       *)
(* w: [views: <<[denied, fields: <<[name, frames, group, denied]>>]>>, sets: <<[view, name, items]>>]; an item:             *)
(* [neg, kind, view, name] with kind "field", "set" or "all" and view 0 where none is written.                             *)
(* A field is <<view, text>>.                                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Concat(q) == LET RECURSIVE C(_)
                 C(i) == IF i = 0 THEN <<>> ELSE C(i - 1) \o q[i] IN C(Len(q))
Texts(v, f) == IF f.group THEN [k \in 1..Len(f.frames) |-> <<v, f.name \o "_" \o f.frames[k]>>] ELSE << <<v, f.name>> >>
\* all fields of a view that the user can see, in the order of their declaration
AllOf(w, v) == IF w.views[v].denied THEN <<>>
               ELSE LET fs == SelectSeq(w.views[v].fields, LAMBDA f : ~f.denied) IN Concat([k \in 1..Len(fs) |-> Texts(v, fs[k])])
\* the set meant by a name written in view v: of the view named, else of the same view, else the first in the project; 0: none
Find(w, v, item) ==
    LET In(u) == {k \in 1..Len(w.sets) : w.sets[k].view = u /\ w.sets[k].name = item.name /\ ~w.views[u].denied}
        Some == {u \in 1..Len(w.views) : In(u) # {}}
        Min(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
    IN IF item.view # 0 THEN Min(In(item.view)) ELSE IF In(v) # {} THEN Min(In(v)) ELSE IF Some = {} THEN 0 ELSE Min(In(Min(Some)))
RECURSIVE Expand(_, _, _)
Listed(w, v, item) ==
    CASE item.kind = "field" -> << <<IF item.view = 0 THEN v ELSE item.view, item.name>> >>
      [] item.kind = "all"   -> AllOf(w, v)
      [] OTHER               -> LET k == Find(w, v, item) IN IF k = 0 THEN <<>> ELSE Expand(w, w.sets[k].view, w.sets[k].items)
Firsts(q) == LET RECURSIVE D(_)
                 D(i) == IF i = 0 THEN <<>> ELSE LET r == D(i - 1) IN IF \E j \in 1..Len(r) : r[j] = q[i] THEN r ELSE Append(r, q[i])
             IN D(Len(q))
Expand(w, v, items) ==
    LET in  == Concat([k \in 1..Len(items) |-> IF items[k].neg THEN <<>> ELSE Listed(w, v, items[k])])
        out == Concat([k \in 1..Len(items) |-> IF items[k].neg THEN Listed(w, v, items[k]) ELSE <<>>])
    IN Firsts(SelectSeq(in, LAMBDA x : \A j \in 1..Len(out) : out[j] # x))
=============================================================================
