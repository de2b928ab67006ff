-------------------------------- MODULE Names --------------------------------
(* What a reference to a field denotes.  A world: views, each [fields: <<[name, kind, frames, measure, hidden, denied]>>]. *)
(* kind "plain", "time" or "duration"; frames: the declared timeframes or intervals.  A denotation is <<view, field,      *)
(* frame>> with frame 0 for fields that have none; <<view, 0, 0>> is the default count of a view.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Text(f, k) == CASE f.kind = "time" -> f.name \o "_" \o f.frames[k]
                [] f.kind = "duration" -> f.frames[k] \o "s_" \o f.name
                [] OTHER -> f.name
Frames(f) == IF f.kind = "plain" THEN {0} ELSE 1..Len(f.frames)
Seen(w, v) == {k \in 1..Len(w[v].fields) : ~w[v].fields[k].denied /\ ~w[v].denied}
\* all that a name can denote in the views V
Candidates(w, V, name) == {<<v, f, k>> \in UNION {UNION {{<<v, f, k>> : k \in Frames(w[v].fields[f])} : f \in Seen(w, v)} : v \in V} : Text(w[v].fields[f], k) = name}
\* as above, by the name of the field alone
Named(w, V, name) == {<<v, f, 0>> : v \in V, f \in 1..20} \cap UNION {{<<v, f, 0>> : f \in {g \in Seen(w, v) : w[v].fields[g].name = name}} : v \in V}
None == <<0, 0, 0>>
One(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE None
\* the default count: of a view that defines no field of this name
Counted(w, v, name) == name = "count" /\ v # 0 /\ ~w[v].denied /\ \A f \in 1..Len(w[v].fields) : w[v].fields[f].name # "count"
Denotes(w, v, name) ==
    LET S == Candidates(w, IF v = 0 THEN 1..Len(w) ELSE {v}, name) IN
    IF S = {} /\ Counted(w, v, name) THEN <<v, 0, 0>> ELSE One(S)
DenotesByName(w, v, name) ==
    LET S == Named(w, IF v = 0 THEN 1..Len(w) ELSE {v}, name) IN
    IF S = {} /\ Counted(w, v, name) THEN <<v, 0, 0>> ELSE One(S)
\* among the fields shown, of one kind
DenotesShown(w, v, name, measure) ==
    One({c \in Candidates(w, IF v = 0 THEN 1..Len(w) ELSE {v}, name) : ~w[c[1]].fields[c[2]].hidden /\ w[c[1]].fields[c[2]].measure = measure})
Measure(w, d) == IF d[2] = 0 THEN TRUE ELSE w[d[1]].fields[d[2]].measure
=============================================================================
