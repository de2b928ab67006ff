----------------------------- MODULE FunnelTrace -----------------------------
EXTENDS Funnel, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
Worlds == ndJsonDeserialize(IOEnv.WORLDS)
VARIABLES i, verdict
vars == <<i, verdict>>
Init == i \in 1..Len(Obs) /\ verdict = "?"
Next == /\ verdict = "?"
        /\ verdict' = JudgeFunnel(Worlds[Obs[i].w], Obs[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"VERDICT", i, verdict'>>)
        /\ UNCHANGED i
=============================================================================
