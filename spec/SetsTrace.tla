------------------------------ MODULE SetsTrace ------------------------------
(* What sets were expanded to.  obs: [w, got: <<[set, fields]>>]; fields: <<<<view, text>>>>, or status of a failure.      *)
EXTENDS Sets, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict
Wrong(w, g) ==
    LET s == w.sets[g.set]
        e == Expand(w, s.view, s.items)
        h == [k \in 1..Len(g.fields) |-> <<g.fields[k][1], g.fields[k][2]>>] IN
    IF w.views[s.view].denied THEN (IF g.found THEN "a set of a view out of reach was found" ELSE "")
    ELSE IF ~g.found THEN "not found"
    ELSE IF h = e THEN "" ELSE IF {h[k] : k \in 1..Len(h)} = {e[k] : k \in 1..Len(e)} THEN "order or repetition: " \o g.way ELSE "expansion: " \o g.way
Init == i \in 1..Len(Obs) /\ verdict = "read"
Next == /\ verdict = "read"
        /\ LET o == Obs[i]  V == {k \in 1..Len(o.got) : Wrong(o.w, o.got[k]) # ""} IN
             verdict' = IF \A k \in V : PrintT(<<"VERDICT", i, ToString(k) \o " " \o Wrong(o.w, o.got[k])>>) THEN (IF V = {} THEN "accepted" ELSE "rejected") ELSE "x"
        /\ UNCHANGED i
=============================================================================
