----------------------------- MODULE NamesTrace -----------------------------
(* What references were resolved to.  obs: [w, refs: <<[way, v, name, got]>>]; v 0: a bare name; got: a denotation, None   *)
(* if refused.                                                                                                            *)
EXTENDS Names, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict
Expected(w, r) ==
    CASE r.way = "field"     -> Denotes(w, r.v, r.name)
      [] r.way = "by name"   -> DenotesByName(w, r.v, r.name)
      [] r.way = "metric"    -> DenotesShown(w, r.v, r.name, TRUE)
      [] r.way = "dimension" -> DenotesShown(w, r.v, r.name, FALSE)
      [] r.way \in {"select measure", "select dimension"} -> Denotes(w, r.v, r.name)
      \* as a condition of a query of view r.home, or in the definition of a field of that view
      [] r.way \in {"condition", "having"} -> LET d == Denotes(w, r.v, r.name) IN IF d[1] = r.home THEN d ELSE None
      [] r.way = "within"    -> LET d == Denotes(w, IF r.v = 0 THEN r.home ELSE r.v, r.name) IN IF d[1] = r.home THEN d ELSE None
      [] r.way = "exists"    -> Denotes(w, r.v, r.name)
\* whether a measure may stand where a dimension is due, and the other way round, is left open
Misplaced(w, r, d) == d # None /\ CASE r.way \in {"select measure", "having"} -> ~Measure(w, d)
                                    [] r.way \in {"select dimension", "condition", "within"} -> Measure(w, d)
                                    [] OTHER -> FALSE
Wrong(w, r) ==
    LET e == Expected(w, r) g == <<r.got[1], r.got[2], r.got[3]>> IN
    IF r.way = "exists" THEN (IF (e # None) = (g # None) THEN "" ELSE "existence of a field")
    ELSE IF g = e \/ (g = None /\ Misplaced(w, r, e)) THEN ""
    ELSE IF g = None THEN "refused: " \o r.way ELSE IF e = None THEN "not refused: " \o r.way ELSE "another field: " \o r.way
Init == i \in 1..Len(Obs) /\ verdict = "read"
Next == /\ verdict = "read"
        /\ LET o == Obs[i]  V == {k \in 1..Len(o.refs) : Wrong(o.w, o.refs[k]) # ""} IN
             verdict' = IF \A k \in V : PrintT(<<"VERDICT", i, ToString(k) \o " " \o Wrong(o.w, o.refs[k])>>) THEN (IF V = {} THEN "accepted" ELSE "rejected") ELSE "x"
        /\ UNCHANGED i
=============================================================================
