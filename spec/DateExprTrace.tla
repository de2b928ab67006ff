--------------------------- MODULE DateExprTrace ---------------------------
EXTENDS DateExpr, Json, IOUtils, TLC
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict
vars == <<i, verdict>>
Init == i \in 1..Len(Obs) /\ verdict = "?"
Next == /\ verdict = "?"
        /\ verdict' = JudgeDate(Obs[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"VERDICT", i, verdict'>>)
        /\ UNCHANGED i
=============================================================================
