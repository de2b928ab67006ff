---------------------------- MODULE ReleaseModel ----------------------------
(* The machine that holds and releases: the calls step by step, failing anywhere, and giving back what they hold before
   they end.  Its runs are the histories that are replayed; that it never ends a call in a way WrongCall objects to ties
   the machine and the judgement together.                                                                                *)
EXTENDS Release
CONSTANTS MaxCalls, KindsIn
VARIABLES kind, before, call, todo, phase, raised, hit, folder, key, past, was
vars == <<kind, before, call, todo, phase, raised, hit, folder, key, past, was>>
Pick(S) == {RandomElement(S)}
None == [op |-> "none", key |-> "none", point |-> "", n |-> 0, how |-> "error", part |-> FALSE]
Init == /\ kind \in KindsIn
        /\ before = [folder |-> FALSE, known |-> FALSE]
        /\ call = None /\ todo = <<>> /\ phase = "idle" /\ raised = FALSE /\ hit = FALSE /\ folder = 0 /\ key = FALSE
        /\ past = <<>> /\ was = before
Calls(k, b) ==
    LET ops == IF k = "local" THEN Fetches \cup {"delete"} ELSE Fetches \cup Works \cup {"delete"}
        keys == IF k = "ssh" THEN {"none", "good", "text"} ELSE {"none", "good"}
        base == {[None EXCEPT !.op = o, !.key = kk] : o \in ops, kk \in keys}
        whole == {c \in base : c.op = "delete" => c.key = "none"}
        Points2(c) == LET p == Points(k, b, c) IN {p[j] : j \in 1..Len(p)}
        fails(c) == UNION {
            CASE p = "key" -> IF c.key = "good" THEN {[c EXCEPT !.point = p, !.how = h] : h \in {"interrupt", "chmod"}} ELSE {}
              [] p = "clone" -> {[c EXCEPT !.point = p, !.how = h, !.part = x] : h \in {"error", "interrupt"}, x \in BOOLEAN}
              [] p = "git" -> {[c EXCEPT !.point = p, !.how = h, !.n = j] : h \in {"error", "interrupt"}, j \in 1..Commands[c.op]}
              [] p = "project" -> {[c EXCEPT !.point = p, !.how = h, !.n = j] : h \in {"error", "interrupt"}, j \in 1..2}
              [] p = "definitions" -> {[c EXCEPT !.point = p, !.how = h, !.n = j] : h \in {"error"}, j \in 1..4} \cup {[c EXCEPT !.point = p, !.how = "interrupt", !.n = 1]}
              [] OTHER -> {[c EXCEPT !.point = p, !.how = h] : h \in {"error", "interrupt"}} : p \in Points2(c)}
    IN whole \cup UNION {fails(c) : c \in whole}
Start(c) == /\ phase = "idle" /\ Len(past) < MaxCalls
            /\ call' = c /\ todo' = Points(kind, before, c) /\ phase' = "running"
            /\ raised' = Refused(kind, before, c) /\ hit' = FALSE
            /\ UNCHANGED <<kind, before, folder, key, past, was>>
Begin == phase = "idle" /\ \E c \in Calls(kind, before) : Start(c)
BeginAny == phase = "idle" /\ \E c \in Pick(Calls(kind, before)) : Start(c)
\* the n-th command of git fails
FailsHere == call.point # "" /\ todo # <<>> /\ Head(todo) = call.point
             /\ (call.point = "git" => Len(todo) = Commands[call.op] - call.n + 1)
Effects(p, done) == /\ key' = IF p = "key" THEN TRUE ELSE key
                    /\ folder' = IF p = "clone" /\ (done \/ call.part) THEN (IF call.op = "connect" THEN folder + 1 ELSE 1) ELSE folder
Step == /\ phase = "running" /\ todo # <<>>
        /\ IF FailsHere /\ ~Tolerated(call)
           THEN /\ raised' = TRUE /\ hit' = TRUE /\ phase' = "unwinding" /\ Effects(Head(todo), FALSE) /\ todo' = <<>>
           ELSE IF Head(todo) = "git" /\ folder = 0
           THEN /\ raised' = TRUE /\ hit' = TRUE /\ phase' = "unwinding" /\ todo' = <<>> /\ UNCHANGED <<key, folder>>
           ELSE /\ hit' = (hit \/ FailsHere) /\ Effects(Head(todo), TRUE) /\ todo' = Tail(todo) /\ UNCHANGED <<raised, phase>>
        /\ UNCHANGED <<kind, before, call, past, was>>
Return == /\ phase = "running" /\ todo = <<>> /\ phase' = "unwinding" /\ UNCHANGED <<kind, before, call, todo, raised, hit, folder, key, past, was>>
\* what is held is given back, in any order
LetKeyGo == phase = "unwinding" /\ key /\ key' = FALSE /\ UNCHANGED <<kind, before, call, todo, phase, raised, hit, folder, past, was>>
MustGo == \/ folder > 0 /\ (call.op \in {"load", "delete"} \/ (call.op = "fetch" /\ raised))
          \/ call.op = "connect" /\ folder > (IF before.folder THEN 1 ELSE 0)
LetFolderGo == phase = "unwinding" /\ MustGo /\ folder' = folder - 1 /\ UNCHANGED <<kind, before, call, todo, phase, raised, hit, key, past, was>>
Seen == [raised |-> raised, hit |-> hit, folders |-> folder, keys |-> IF key THEN 1 ELSE 0, other |-> 0, gone |-> 0, nokey |-> 0, answer |-> TRUE]
End == /\ phase = "unwinding" /\ ~key /\ ~MustGo
       /\ phase' = "idle" /\ past' = Append(past, call) /\ was' = before /\ before' = BeforeNext(kind, before, call, Seen)
       /\ UNCHANGED <<kind, call, todo, raised, hit, folder, key>>
Work == Step \/ Return \/ LetKeyGo \/ LetFolderGo \/ End
Next == Begin \/ Work
NextAny == BeginAny \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)
----------------------------------------------------------------------------
Emit == (phase = "idle" /\ Len(past) = MaxCalls) => PrintT(<<"CASE", ToJson([kind |-> kind, calls |-> past])>>)
NothingLeft == phase = "idle" => ~key
Agrees == (phase = "idle" /\ past # <<>>) => WrongCall(kind, was, call, Seen) = ""
Ends == (phase # "idle") ~> (phase = "idle")
=============================================================================
