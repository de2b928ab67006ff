----------------------------- MODULE SameTrace -----------------------------
(* What the processes answered.  obs: [key, answers: <<[kind, text, bag, load, seed]>>], all to one request.              *)
EXTENDS Same, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, k, said, verdict
Init == i \in 1..Len(Obs) /\ k = 0 /\ said = <<>> /\ verdict = "read"
Next == /\ verdict = "read"
        /\ IF k = Len(Obs[i].answers) THEN verdict' = "accepted" /\ UNCHANGED <<k, said>>
           ELSE LET a == Obs[i].answers[k + 1] IN
                IF Extends(said, 1, a) THEN k' = k + 1 /\ said' = Say(said, 1, a) /\ UNCHANGED verdict
                ELSE /\ verdict' = IF PrintT(<<"VERDICT", i, IF \E b \in said[1] : b.load = a.load /\ ~Equal(a, b)
                                                             THEN "another answer where texts hash otherwise" ELSE "another answer where definitions are loaded in another order">>)
                                   THEN "rejected" ELSE "x"
                     /\ UNCHANGED <<k, said>>
        /\ UNCHANGED i
=============================================================================
