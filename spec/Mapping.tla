------------------------------- MODULE Mapping -------------------------------
(* What a mapping's name stands for in a request.                                                                         *)
(*                                                                                                                        *)
(* w: the definitions.                                                                                                    *)
(*   w.comp[v]    the group of views (joined, directly or through others) view v belongs to                               *)
(*   w.date[v]    the name of its default date, "" if it has none                                                         *)
(*   w.mets[v]    its measures in order: [name, date]; date "": that of the view                                          *)
(*   w.maps       the mappings in order: [name, kind "dim"/"met", fields <<[v, f]>>]                                      *)
(*   w.denied     the fields the user may not see                                                                         *)
(* q: a request: mets, dims, where, order of items [k, f]: k = 0 the field f itself, k in 1..Len(w.maps) that mapping,     *)
(*   k = Len(w.maps) + 1 the generic date.                                                                                *)
(* A substitution s gives for every mapping used the field it stands for.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Fld(v, f) == [v |-> v, f |-> f]
DateKey(w) == Len(w.maps) + 1
Items(q) == RangeOf(q.mets) \cup RangeOf(q.dims) \cup RangeOf(q.where) \cup RangeOf(q.order)
Real(q) == {i.f : i \in {i \in Items(q) : i.k = 0}}
RealOf(xs) == {i.f : i \in {i \in RangeOf(xs) : i.k = 0}}
Used(q) == {i.k : i \in Items(q)} \ {0}
Comps(w, q) == {w.comp[f.v] : f \in Real(q)}
Seen(w, f) == f \notin RangeOf(w.denied)
----------------------------------------------------------------------------
(* dates *)
MetDate(w, f) == LET m == CHOOSE m \in RangeOf(w.mets[f.v]) : m.name = f.f IN IF m.date # "" THEN m.date ELSE w.date[f.v]
CanonDates(w) == {Fld(v, w.date[v]) : v \in {v \in 1..Len(w.comp) : w.date[v] # ""}}
                 \cup UNION {{Fld(v, m.date) : m \in {m \in RangeOf(w.mets[v]) : m.date # ""}} : v \in 1..Len(w.comp)}
Most(S, n(_)) == {x \in S : \A y \in S : n(y) <= n(x)}
FieldsOf(w, k) == IF k = DateKey(w) THEN CanonDates(w) ELSE RangeOf(w.maps[k].fields)
----------------------------------------------------------------------------
First(w, k, C) == LET s == SelectSeq(w.maps[k].fields, LAMBDA f : Seen(w, f) /\ w.comp[f.v] \in C) IN IF s = <<>> THEN {} ELSE {s[1]}
At(s, i) == IF i.k = 0 THEN i.f ELSE s[i.k]
\* the date meant: of the first measure; else of the view among the dimensions' views with most measures; else of a view of
\* the request
DateChoice(w, q, s) ==
    IF q.mets # <<>> THEN LET f == At(s, q.mets[1]) IN IF MetDate(w, f) = "" THEN {} ELSE {Fld(f.v, MetDate(w, f))}
    ELSE LET D(F) == LET E == {Fld(f.v, w.date[f.v]) : f \in {f \in F : w.date[f.v] # ""}} IN Most(E, LAMBDA d : Len(w.mets[d.v]))
             R == RealOf(q.dims)      \* whether the mapped dimensions have a say in it is open
         IN IF D(R) # {} THEN D(R) \cup D(R \cup {At(s, i) : i \in {i \in RangeOf(q.dims) : i.k # DateKey(w)}})
            ELSE {d \in CanonDates(w) : Seen(w, d) /\ (Real(q) = {} \/ w.comp[d.v] \in Comps(w, q))}
Subs(w, q) == [Used(q) -> UNION {FieldsOf(w, k) : k \in Used(q)}]
\* with fields of the request's own to go by
Fits(w, q, s) ==
    \A k \in Used(q) : IF k = DateKey(w) THEN s[k] \in DateChoice(w, q, s) /\ Seen(w, s[k])
                       ELSE IF Cardinality(Comps(w, q)) = 1 /\ (First(w, k, Comps(w, q)) # {} \/ w.maps[k].kind = "dim") THEN s[k] \in First(w, k, Comps(w, q))
                       ELSE IF Cardinality(Comps(w, q)) = 1 THEN s[k] \in FieldsOf(w, k) /\ Seen(w, s[k])     \* a measure put beside the others
                       ELSE s[k] \in FieldsOf(w, k) /\ Seen(w, s[k]) /\ w.comp[s[k].v] \in Comps(w, q)
\* with none
FitsAlone(w, q, s) ==
    \A k \in Used(q) : /\ s[k] \in FieldsOf(w, k) /\ Seen(w, s[k])
                       /\ (k = DateKey(w) => s[k] \in DateChoice(w, q, s))
                       /\ (Cardinality(Used(q)) = 1 /\ k # DateKey(w) => s[k] \in First(w, k, RangeOf(w.comp)))
Acceptable(w, q) == {s \in Subs(w, q) : IF Real(q) # {} THEN Fits(w, q, s) ELSE FitsAlone(w, q, s)}
Together(w, s) == \A a, b \in DOMAIN s : w.comp[s[a].v] = w.comp[s[b].v]
\* measures of different dates under one generic date are put side by side, each by its own
Dates(w, q, s) == {Fld(At(s, q.mets[i]).v, MetDate(w, At(s, q.mets[i]))) : i \in 1..Len(q.mets)}
Merged(w, q, s) == DateKey(w) \in Used(q) /\ Cardinality(Dates(w, q, s)) > 1
=============================================================================
