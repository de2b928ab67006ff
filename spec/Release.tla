------------------------------ MODULE Release ------------------------------
(* What calls hold while they run, and what may be left of it when they end.

   A repository object lives through calls  [op, key, point, n, how, part]:  op is what is called, key the private key
   that is passed ("none", "good", "text": one of the wrong type), point where something fails ("": nowhere), n at which
   command (point "git"), how: "error", "interrupt", or "chmod" (the key cannot be protected), part: whether the failing
   clone has begun to write.

   A call that runs a query is  [wh, raw, pre, start, has, point, how].                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Kinds == {"http", "ssh", "local"}
Commands == [create_branch |-> 3, delete_branch |-> 1, add_commit_and_push |-> 4, pull |-> 3, squash_and_merge |-> 4]
Works == DOMAIN Commands
Fetches == {"fetch", "load", "connect"}       \* load: by the loader; connect: by a connection, with a repository object of its own
Loads == {"load", "connect"}

Rep(n, x) == [k \in 1..n |-> x]
\* before: [folder: a clone lies there, known: a fetch has succeeded before]
Refused(kind, before, c) ==
    CASE kind = "local" -> c.op \in Works
      [] c.op \in Fetches -> kind = "ssh" /\ c.key = "none"
      [] c.op \in Works -> ~before.known
      [] OTHER -> FALSE
UsesKey(kind, c) == kind = "ssh" /\ c.key # "none" /\ c.op # "delete"
\* the points a call passes, in order
Points(kind, before, c) ==
    IF Refused(kind, before, c) THEN <<>>
    ELSE (IF UsesKey(kind, c) THEN <<"key">> ELSE <<>>)
         \o (IF c.op \in Fetches /\ kind # "local" THEN <<"clone", "remote">> ELSE <<>>)
         \o (IF c.op \in Loads THEN <<"project", "definitions">> ELSE <<>>)
         \o (IF c.op \in Loads /\ kind # "local" THEN <<"commit">> ELSE <<>>)
         \o (IF c.op \in Works THEN Rep(Commands[c.op], "git") ELSE <<>>)
\* not knowing the branches is no reason to fail
Tolerated(c) == c.point = "remote" /\ c.how = "error"
\* a key of the wrong type may be accepted; a key that cannot be protected need not be used
Open(kind, c) == UsesKey(kind, c) /\ (c.key = "text" \/ (c.point = "key" /\ c.how = "chmod"))

\* o: [raised, hit: the failure took place, folders, keys, other: what is left that was not there when the object was made,
\*     gone: what else was deleted or changed, nokey: a command of git that had to go without the key, answer]
FoldersLeft(kind, before, c, raised) ==
    CASE kind = "local" -> {0}
      [] c.op \in {"load", "delete"} -> {0}
      [] c.op = "fetch" -> IF ~raised THEN {1} ELSE IF before.folder THEN {0, 1} ELSE {0}
      [] OTHER -> {IF before.folder THEN 1 ELSE 0}
WrongCall(kind, before, c, o) ==
    IF o.gone # 0 THEN "deleted or changed what is not its own"
    ELSE IF o.keys # 0 THEN "a private key is left behind"
    ELSE IF o.folders \notin FoldersLeft(kind, before, c, o.raised) THEN (IF o.folders = 0 THEN "the clone is gone" ELSE "a clone is left behind")
    ELSE IF o.other # 0 THEN "a temporary file is left behind"
    ELSE IF UsesKey(kind, c) /\ ~Open(kind, c) /\ o.nokey # 0 THEN "git has to work without the key"
    ELSE IF Open(kind, c) THEN ""
    ELSE IF o.raised # (Refused(kind, before, c) \/ (o.hit /\ ~Tolerated(c))) THEN (IF o.raised THEN "raised for no reason" ELSE "a failure was swallowed")
    ELSE IF c.op \in Loads /\ ~o.raised /\ ~o.answer THEN "loaded something else"
    ELSE ""
BeforeNext(kind, before, c, o) == [folder |-> o.folders > 0, known |-> before.known \/ (kind # "local" /\ c.op \in {"fetch", "load"} /\ ~o.raised)]
----------------------------------------------------------------------------
Warehouses == {"snowflake", "redshift", "postgres", "bigquery"}
Parts == <<"warehouse", "database", "schema">>
PreQueries(c) == IF c.wh # "snowflake" THEN <<>>
                 ELSE LET on == IF c.pre THEN {"warehouse", "database", "schema"} ELSE IF c.start THEN {"warehouse"} ELSE {}
                      IN SelectSeq(Parts, LAMBDA p : p \in on /\ \E k \in 1..Len(c.has) : c.has[k] = p)
RunPoints(c) ==
    CASE c.wh = "snowflake" -> <<"connect">> \o (IF PreQueries(c) # <<>> THEN <<"pre">> ELSE <<>>) \o <<"cursor", "execute">> \o (IF c.raw THEN <<>> ELSE <<"fetch">>)
      [] c.wh = "redshift" -> <<"connect", "cursor", "execute">> \o (IF c.raw THEN <<>> ELSE <<"fetch">>)
      [] c.wh = "postgres" -> <<"connect">> \o (IF c.raw THEN <<"cursor">> ELSE <<>>) \o <<"execute">>
      [] c.wh = "bigquery" -> <<"connect", "execute">> \o (IF c.raw THEN <<>> ELSE <<"fetch">>)
\* o: [raised, hit, opened, open: connections not closed when the call ends, lent: the one whose cursor was returned is among
\*     them, ran: what was executed, got: "frame", "cursor" or other]
WrongRun(c, o) ==
    IF o.open > 0 /\ ~(c.raw /\ ~o.raised /\ o.open = 1 /\ o.lent) THEN "a connection is left open"
    ELSE IF o.raised # o.hit THEN (IF o.raised THEN "raised for no reason" ELSE "a failure was swallowed")
    ELSE IF o.raised THEN ""
    ELSE IF o.ran # PreQueries(c) \o <<"query">> THEN "ran other statements"
    ELSE IF o.got # (IF c.raw THEN "cursor" ELSE "frame") THEN "returned something else"
    ELSE ""
=============================================================================
