---------------------------- MODULE ReleaseRuns ----------------------------
(* Every way to run a query, failing anywhere, and the connection it holds meanwhile.                                    *)
EXTENDS Release
VARIABLES c, todo, phase, raised, open, ran
vars == <<c, todo, phase, raised, open, ran>>
Flows == LET Q == {[wh |-> w, raw |-> r, pre |-> p, start |-> s, has |-> h, point |-> "", how |-> "error"] :
                      w \in Warehouses, r \in BOOLEAN, p \in BOOLEAN, s \in BOOLEAN,
                      h \in {<<>>, <<"warehouse">>, <<"database">>, <<"warehouse", "schema">>, <<"warehouse", "database", "schema">>}}
         IN {q \in Q : q.wh # "snowflake" => q.pre /\ q.start /\ Len(q.has) \in {0, 3}}
Init == /\ \E q \in Flows : \E p \in {""} \cup {RunPoints(q)[j] : j \in 1..Len(RunPoints(q))}, h \in {"error", "interrupt"} :
             /\ (p = "" => h = "error") /\ c = [q EXCEPT !.point = p, !.how = h] /\ todo = RunPoints(q)
        /\ phase = "running" /\ raised = FALSE /\ open = 0 /\ ran = <<>>
Step == /\ phase = "running" /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED c
        /\ IF Head(todo) = c.point THEN raised' = TRUE /\ phase' = "unwinding" /\ UNCHANGED <<open, ran>>
           ELSE /\ UNCHANGED <<raised, phase>>
                /\ open' = IF Head(todo) = "connect" THEN 1 ELSE open
                /\ ran' = CASE Head(todo) = "pre" -> ran \o PreQueries(c) [] Head(todo) = "execute" -> Append(ran, "query") [] OTHER -> ran
Finish == phase = "running" /\ todo = <<>> /\ phase' = "unwinding" /\ UNCHANGED <<c, todo, raised, open, ran>>
Close == phase = "unwinding" /\ open > 0 /\ open' = 0 /\ UNCHANGED <<c, todo, phase, raised, ran>>
End == phase = "unwinding" /\ open = 0 /\ phase' = "ended" /\ UNCHANGED <<c, todo, raised, open, ran>>
Next == Step \/ Finish \/ Close \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Emit == phase = "ended" => PrintT(<<"CASE", ToJson(c)>>)
Agrees == phase = "ended" => WrongRun(c, [raised |-> raised, hit |-> raised, open |-> open, lent |-> FALSE, ran |-> ran, got |-> IF c.raw THEN "cursor" ELSE "frame"]) = ""
Ends == <>(phase = "ended")
=============================================================================
