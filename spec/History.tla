------------------------------ MODULE History ------------------------------
(* Long-lived projects and what may happen to them between two questions.                                                *)
(* The state of a project is what an answer may depend on: the user, the time zone and the definitions, these as the     *)
(* changes made to those it was built with.  A question is no transition of this state: whatever is asked, whether it    *)
(* succeeds or fails, of this project or of another one in the same process, changes nothing.  Putting other objects in  *)
(* place for a while is a scope: leaving it, in whatever way, brings back the definitions found on entry.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* An operation is a record [op, p, a, b, c] with p the number of the project; unused arguments are 0.
Op(op, p, a, b, c) == [op |-> op, p |-> p, a |-> a, b |-> b, c |-> c]

Project0 == [user |-> 0, zone |-> 0, log |-> <<>>, stack |-> <<>>]

\* versions of the moving fields: 1..5; all but 3 exist in the base in version 1
Fields == 1..5
InBase == {1, 2, 4, 5}
\* the view of a moving field, and the moving fields a replacement puts back into their first version
ReplFields(k) == CASE k = 1 -> {1, 2, 4} [] k = 2 -> {} [] k = 3 -> {3} [] k = 4 -> {3, 4}
Present(log, f) ==
    LET RECURSIVE At(_)
        At(i) == IF i = 0 THEN f \in InBase
                 ELSE CASE log[i].op = "add" /\ log[i].a = f -> TRUE
                        [] log[i].op = "remove" /\ log[i].a = f -> FALSE
                        [] log[i].op = "repl" /\ f \in ReplFields(log[i].a) -> f \in InBase
                        [] OTHER -> At(i - 1)
    IN At(Len(log))

Entry(op, a, b) == [op |-> op, a |-> a, b |-> b]

\* the next state of one project
Do(st, o) ==
    CASE o.op = "user"   -> [st EXCEPT !.user = o.a]
      [] o.op = "zone"   -> [st EXCEPT !.zone = o.a]
      \* adding a field that is there changes nothing, nor does removing one that is not
      [] o.op = "add"    -> IF Present(st.log, o.a) THEN st ELSE [st EXCEPT !.log = Append(@, Entry("add", o.a, o.b))]
      [] o.op = "remove" -> IF Present(st.log, o.a) THEN [st EXCEPT !.log = Append(@, Entry("remove", o.a, 0))] ELSE st
      [] o.op = "enter"  -> [st EXCEPT !.log = Append(@, Entry("repl", o.a, 0)), !.stack = Append(@, st.log)]
      [] o.op = "leave"  -> [st EXCEPT !.log = st.stack[Len(st.stack)], !.stack = SubSeq(@, 1, Len(@) - 1)]
      [] OTHER           -> st                         \* "ask", "again"

Apply(s, o) == [s EXCEPT ![o.p] = Do(@, o)]

RECURSIVE After(_, _, _)
After(s, ops, i) == IF i = 0 THEN s ELSE Apply(After(s, ops, i - 1), ops[i])

Key(st) == [user |-> st.user, zone |-> st.zone, log |-> st.log]

----------------------------------------------------------------------------
CONSTANTS Users, Zones, Moving, Versions, Repls, Reqs, Projects, Depth, Length, Kinds
VARIABLES s, ops, due, keys, logs, pool    \* pool: the questions of this history
vars == <<s, ops, due, keys, logs, pool>>

Start == [p \in Projects |-> Project0]
Init == s = Start /\ ops = <<>> /\ due = 0 /\ keys = <<>> /\ logs = {<<>>} /\ pool = {}

\* due: the project whose cache has not been refreshed since a change (no question is asked of it meanwhile); 0: none
Step(o) == s' = Apply(s, o) /\ ops' = Append(ops, o)
                 /\ keys' = Append(keys, IF o.op \in {"ask", "again"} THEN Key(s[o.p]) ELSE [user |-> 0, zone |-> 0, log |-> <<>>])
                 /\ logs' = logs \cup {s'[o.p].log} /\ UNCHANGED pool

Pick(S) == {RandomElement(S)}

ASet(p)    == "set" \in Kinds /\ \E u \in Pick(Users) : Step(Op("user", p, u, 0, 0)) /\ UNCHANGED due
AZone(p)   == "set" \in Kinds /\ \E z \in Pick(Zones) : Step(Op("zone", p, z, 0, 0)) /\ UNCHANGED due
AAdd(p)    == "field" \in Kinds /\ \E f \in Pick(Moving), v \in Pick(Versions), r \in Pick({0, 1, 1}) :
                 /\ r = 0 => due \in {0, p} /\ Len(ops) < Length - 2
                 /\ Step(Op("add", p, f, v, r)) /\ due' = IF r = 0 THEN p ELSE IF due = p THEN 0 ELSE due
ARemove(p) == "field" \in Kinds /\ \E f \in Pick(Moving), r \in Pick({0, 1, 1}) :
                 /\ r = 0 => due \in {0, p} /\ Len(ops) < Length - 2
                 /\ Step(Op("remove", p, f, 0, r)) /\ due' = IF r = 0 THEN p ELSE IF due = p THEN 0 ELSE due
\* the cache is refreshed on its own
ARefresh(p) == due = p /\ Step(Op("refresh", p, 0, 0, 0)) /\ due' = 0
AEnter(p)  == "scope" \in Kinds /\ Len(s[p].stack) < Depth /\ due = 0
                 /\ \E k \in Pick(Repls) : Step(Op("enter", p, k, 0, 0)) /\ UNCHANGED due
ALeave(p)  == Len(s[p].stack) > 0 /\ due = 0 /\ \E e \in Pick({0, 1}) : Step(Op("leave", p, e, 0, 0)) /\ UNCHANGED due
AAsk(p)    == due # p /\ \E r \in Pick(pool) : Step(Op("ask", p, r, 0, 0)) /\ UNCHANGED due
\* ask once more what was asked before of any project, with the very same objects
AAgain(p)  == due # p /\ LET A == {i \in 1..Len(ops) : ops[i].op = "ask"} IN
                 A # {} /\ \E i \in Pick(A) : Step(Op("again", p, ops[i].a, i, 0)) /\ UNCHANGED due
\* one kind of step drawn at random, for simulation
Drawn(n) == {RandomElement(Reqs) : k \in 1..n}
Next == /\ Len(ops) < Length
        /\ IF pool = {} THEN pool' = Drawn(5) /\ UNCHANGED <<s, ops, due, keys, logs>>
           ELSE \E p \in Pick(Projects) :
             IF due # 0 THEN \E x \in Pick(1..3) : CASE x = 1 -> ARefresh(due) [] x = 2 -> AAdd(due) [] OTHER -> ARemove(due)
             ELSE \E x \in Pick(1..16) :
                CASE x \in {1, 2} -> ASet(p) [] x = 3 -> AZone(p) [] x = 4 -> AAdd(p) [] x \in {5, 6} -> ARemove(p)
                  [] x \in {7, 8} -> AEnter(p) [] x \in {9, 10} -> ALeave(p) [] x = 11 -> AAgain(p) [] OTHER -> AAsk(p)
\* a draw that is not enabled does not end the history
NextOrIdle == Next \/ (Len(ops) < Length /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Emit == Len(ops) = Length => PrintT(<<"CASE", ToJson([ops |-> ops, keys |-> keys, logs |-> logs])>>)

----------------------------------------------------------------------------
(* Laws of the model, checked over all histories up to the bound (HistoryModel).                                         *)
\* erasing every finished scope from a history leaves the definitions it leads to as they were
RECURSIVE Erase(_, _)
Erase(o, p) ==
    LET L == {i \in 1..Len(o) : o[i].op = "leave" /\ o[i].p = p} IN
    IF L = {} THEN o
    ELSE LET l == CHOOSE i \in L : \A j \in L : i <= j
             E == {i \in 1..(l - 1) : o[i].op = "enter" /\ o[i].p = p}
             e == CHOOSE i \in E : \A j \in E : j <= i
             keep(i) == i < e \/ i > l \/ o[i].p # p \/ o[i].op \in {"user", "zone"}
             RECURSIVE K(_)
             K(i) == IF i > Len(o) THEN <<>> ELSE (IF keep(i) THEN <<o[i]>> ELSE <<>>) \o K(i + 1)
         IN Erase(K(1), p)
ScopesLeaveNothing == \A p \in Projects : After(Start, Erase(ops, p), Len(Erase(ops, p)))[p] = s[p]
\* what happens to one project is nothing to another
Independent == \A p \in Projects :
    LET mine == SelectSeq(ops, LAMBDA o : o.p = p) IN After(Start, mine, Len(mine))[p] = s[p]
\* questions change nothing
QuestionsAreNoTransitions ==
    LET rest == SelectSeq(ops, LAMBDA o : o.op \notin {"ask", "again"}) IN After(Start, rest, Len(rest)) = s
=============================================================================
