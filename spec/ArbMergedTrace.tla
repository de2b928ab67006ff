--------------------------- MODULE ArbMergedTrace ---------------------------
EXTENDS ArbMerged, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict
vars == <<i, verdict>>
Init == i \in 1..Len(Obs) /\ verdict = "?"
Next == /\ verdict = "?"
        /\ verdict' = JudgeArb(Obs[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"VERDICT", i, verdict'>>)
        /\ UNCHANGED i
=============================================================================
