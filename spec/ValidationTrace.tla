-------------------------- MODULE ValidationTrace --------------------------
(* What validate() said of projects.  obs: [w, n: number of problems reported, raised, strays: the names that are nowhere  *)
(* defined, named: those of them that what was said mentions]                                                               *)
EXTENDS Validation, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict
\* nothing is wrong but references, and every view has its model: nothing stands in the way of looking at all of them
\* (when the joins cannot be made, that is said and nothing else)
Readable(w) == /\ ~Circular(SqlEdges(w)) /\ ~Circular(SetEdges(w)) /\ ~Doubles(w) /\ \A c \in RangeOf(w.opts) : ~BadOption(c)
               /\ \A r \in RangeOf(w.refs) : r.slot = "model" => Resolves(w, r)
Wrong(o) == IF o.raised THEN "an exception" ELSE IF Sound(o.w) /\ o.n > 0 THEN "a sound project is reported"
            ELSE IF ~Sound(o.w) /\ o.n = 0 THEN "nothing reported"
            ELSE IF Readable(o.w) /\ RangeOf(o.strays) # RangeOf(o.named) /\ ~(o.n = 1 /\ o.named # <<>>) THEN "a broken reference is not named"
            ELSE ""
Init == i \in 1..Len(Obs) /\ verdict = "read"
Next == /\ verdict = "read"
        /\ LET v == Wrong(Obs[i]) IN
             IF v = "" THEN verdict' = "accepted" ELSE PrintT(<<"VERDICT", i, v>>) /\ verdict' = "rejected"
        /\ UNCHANGED i
=============================================================================
