---------------------------- MODULE HistoryTrace ----------------------------
(* A recorded history: every answer is the one a project built afresh in the state of the specification gives; no        *)
(* argument and no definition is changed by asking; a scope leaves the definitions as it found them.                      *)
(* An observation: ops; ans[i] the number of the text answered (0: no question), out[i] "" or what was wrong with the     *)
(* operation itself; args[i] "same" or "changed"; digest[i] of the definitions of project ops[i].p after the operation;   *)
(* every: TRUE to report all, not only the first of a kind;                                                              *)
(* fresh: <<[user, zone, log, req, ans]>>; defs: <<[log, digest]>>.                                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
H == INSTANCE History WITH Users <- {}, Zones <- {}, Moving <- {}, Versions <- {}, Repls <- {}, Reqs <- {}, Projects <- {1, 2},
                           Depth <- 0, Length <- 0, Kinds <- {}, s <- 0, ops <- 0, due <- 0, keys <- 0, logs <- 0, pool <- {}
Obs == ndJsonDeserialize(IOEnv.OBS)

States(ops) ==
    LET RECURSIVE G(_)
        G(i) == IF i = 0 THEN <<[p \in {1, 2} |-> H!Project0]>>
                ELSE LET q == G(i - 1) IN Append(q, H!Apply(q[Len(q)], ops[i]))
    IN G(Len(ops))

Expected(o, st, req) ==
    LET k == {i \in 1..Len(o.fresh) : o.fresh[i].user = st.user /\ o.fresh[i].zone = st.zone /\ o.fresh[i].log = st.log
                                      /\ o.fresh[i].req = req} IN
    IF k = {} THEN -1 ELSE o.fresh[CHOOSE i \in k : TRUE].ans
Digest(o, st) ==
    LET k == {i \in 1..Len(o.defs) : o.defs[i].log = st.log} IN
    IF k = {} THEN "none" ELSE o.defs[CHOOSE i \in k : TRUE].digest

Wrong(o, i, S) ==
    LET op == o.ops[i]
        st == S[i + 1][op.p]           \* after
        asked == op.op \in {"ask", "again"} IN
    IF o.out[i] # "" THEN op.op \o ": " \o o.out[i]
    ELSE IF asked /\ o.args[i] # "same" THEN "arguments changed"
    ELSE IF asked /\ Len(st.stack) > 0 /\ o.ans[i] # Expected(o, st, op.a) THEN "answer inside the scope"
    ELSE IF asked /\ o.ans[i] # Expected(o, st, op.a) THEN "answer"
    ELSE IF o.digest[i] # Digest(o, st) THEN (IF asked THEN "definitions changed by a question" ELSE "definitions after " \o op.op)
    ELSE ""

\* the first operation of every kind that is wrong (each question is judged on its own)
Verdicts(o) ==
    LET S == States(o.ops)
        all == [k \in 1..Len(o.ops) |-> Wrong(o, k, S)]
    IN {<<k, all[k]>> : k \in {k \in 1..Len(o.ops) : all[k] # "" /\ (o.every \/ \A j \in 1..(k - 1) : all[j] # all[k])}}

VARIABLES i, st
Init == i \in 1..Len(Obs) /\ st = "read"
Next == /\ st = "read"
        /\ LET V == Verdicts(Obs[i]) IN
             st' = IF \A v \in V : PrintT(<<"VERDICT", i, ToString(v[1]) \o " " \o v[2]>>) THEN (IF V = {} THEN "accepted" ELSE "rejected") ELSE "rejected"
        /\ UNCHANGED i
=============================================================================
