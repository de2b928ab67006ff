------------------------------ MODULE WeekStart ------------------------------
(* Threads that work out date intervals with a calendar whose first day of the week is state of the whole process.         *)
(* Each job of a thread sets the first day to its own, reads it at the lower and at the upper end of its interval, and sets *)
(* it back; some jobs fail on the way.  Guard: only one thread at a time is between setting and setting back.  Tidy: the    *)
(* first day is set back after a failure, too.  With both, every job reads its own first day (Own), and a process at rest   *)
(* has the default one (Rest); without either, not.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Jobs, Days, Default, Guard, Tidy, Portions, Kinds
VARIABLES jobs, pc, week, holder, read, trail
vars == <<jobs, pc, week, holder, read, trail>>
Pick(S) == {RandomElement(S)}
Job == [ws : Days, fails : {0, 1, 2}]        \* 0: it does not fail; 1, 2: at the lower, upper end
Start(J) == /\ jobs = J
            /\ pc = [t \in Threads |-> <<1, "out">>]
            /\ week = Default /\ holder = 0 /\ read = {} /\ trail = <<>>
Init == \E J \in [Threads -> [1..Jobs -> Job]] : Start(J)
Done(t) == pc[t][1] > Jobs
At(t, s) == ~Done(t) /\ pc[t][2] = s
To(t, s) == pc' = [pc EXCEPT ![t] = IF s = "next" THEN <<@[1] + 1, "out">> ELSE <<@[1], s>>]
Mine(t) == jobs[t][pc[t][1]]
Enter(t) == /\ At(t, "out") /\ (Guard => holder = 0)
            /\ holder' = IF Guard THEN t ELSE holder
            /\ To(t, "set") /\ UNCHANGED <<jobs, week, read>>
Set(t) == At(t, "set") /\ week' = Mine(t).ws /\ To(t, "low") /\ UNCHANGED <<jobs, holder, read>>
\* a failure: with Tidy, on to setting back; without, the job is over, and the day stays
Fail(t) == IF Tidy THEN To(t, "back") /\ UNCHANGED <<holder>> ELSE To(t, "next") /\ holder' = IF holder = t THEN 0 ELSE holder
Read(t, s, k, then) == /\ At(t, s)
                       /\ IF Mine(t).fails = k THEN Fail(t) /\ UNCHANGED read
                          ELSE read' = read \cup {<<t, pc[t][1], week>>} /\ To(t, then) /\ UNCHANGED holder
                       /\ UNCHANGED <<jobs, week>>
Back(t) == /\ At(t, "back") /\ week' = Default
           /\ holder' = IF holder = t THEN 0 ELSE holder
           /\ To(t, "next") /\ UNCHANGED <<jobs, read>>
Act(t) == Enter(t) \/ Set(t) \/ Read(t, "low", 1, "high") \/ Read(t, "high", 2, "back") \/ Back(t)
Next == \E t \in Threads : Act(t) /\ UNCHANGED trail
Own == \A r \in read : r[3] = jobs[r[1]][r[2]].ws
Rest == (\A t \in Threads : pc[t][2] = "out") => week = Default
Alone == Cardinality({t \in Threads : pc[t][2] # "out"}) <= 1
Ends == \A t \in Threads : Done(t) => week \in Days
Live == (\E t \in Threads : ~Done(t)) => ENABLED Next
----------------------------------------------------------------------------
\* schedules: what unguarded threads may do, each step a portion of the real work
Drawn(J) == jobs' = J /\ UNCHANGED <<pc, week, holder, read, trail>>
DrawInit == jobs = <<>> /\ pc = [t \in Threads |-> <<1, "out">>] /\ week = Default /\ holder = 0 /\ read = {} /\ trail = <<>>
DrawnJob(t, k) == [ws |-> RandomElement(Days), fails |-> RandomElement(0..2) * RandomElement(0..1), kind |-> RandomElement(Kinds)]
DrawNext == IF jobs = <<>> THEN Drawn([t \in Threads |-> [k \in 1..Jobs |-> DrawnJob(t, k)]])
            ELSE \E t \in Pick({t \in Threads : ~Done(t)}), n \in Pick(Portions) : Act(t) /\ trail' = Append(trail, <<t, n>>)
Emit == (jobs # <<>> /\ \A t \in Threads : Done(t)) => PrintT(<<"CASE", ToJson([jobs |-> jobs, trail |-> trail])>>)
=============================================================================
