---------------------------- MODULE ReleaseTrace ----------------------------
(* What calls left behind.  obs: [what: "repo", kind, calls, seen] or [what: "run", c, o].                                *)
EXTENDS Release, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict
RECURSIVE Judge(_, _, _)
Judge(o, k, before) ==
    IF k > Len(o.calls) THEN ""
    ELSE LET x == WrongCall(o.kind, before, o.calls[k], o.seen[k])
         IN IF x # "" THEN ToString(k) \o " " \o x ELSE Judge(o, k + 1, BeforeNext(o.kind, before, o.calls[k], o.seen[k]))
Wrong(o) == IF o.what = "run" THEN WrongRun(o.c, o.o) ELSE Judge(o, 1, [folder |-> FALSE, known |-> FALSE])
Init == i \in 1..Len(Obs) /\ verdict = "read"
Next == /\ verdict = "read"
        /\ LET x == Wrong(Obs[i])
           IN verdict' = IF x = "" THEN "accepted" ELSE IF PrintT(<<"VERDICT", i, x>>) THEN "rejected" ELSE "x"
        /\ UNCHANGED i
=============================================================================
