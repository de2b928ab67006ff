----------------------------- MODULE GrantsTrace -----------------------------
(* What a user was answered, against what the grants let the user reach.  obs: [w, u, lists, boards, views, gets, runs]    *)
(* lists: <<[kind, got]>> kind "all", "shown", "measures", "dimensions" or "view" (of view of) ; views, boards: numbers;   *)
(* gets: <<[what, n, ok]>>; reach: <<[got]>> views or fields reported as joinable;                                         *)
(* runs: <<[uses, same, ok, base, cols, tabs, path]>>: the fields a question uses, whether its answer is the one without   *)
(* a user, whether it was answered, whether it is without a user; fields and views whose columns and tables are in it;     *)
(* soft: the dates its metrics are trended by; path: the views in the answer without a user.                                                                          *)
EXTENDS Grants, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict

ListWrong(w, u, l) ==
    LET mine == {f \in Fields(w, u) : /\ (l.view # 0 => w.fields[f].view = l.view)
                                      /\ (~l.hidden => ~w.fields[f].hidden)
                                      /\ (l.kind = "measures" => w.fields[f].measure)
                                      /\ (l.kind = "dimensions" => ~w.fields[f].measure)} IN
    IF ~(ToSet(l.got) \subseteq mine) THEN "a field out of reach is listed"
    ELSE IF mine # ToSet(l.got) THEN "a field in reach is not listed" ELSE ""
GetWrong(w, u, g) ==
    LET can == CASE g.what = "view" -> View(w, u, g.n) [] g.what = "board" -> Board(w, u, g.n) [] OTHER -> Field(w, u, g.n) IN
    IF g.ok /\ ~can THEN g.what \o " out of reach was fetched" ELSE IF can /\ ~g.ok THEN g.what \o " in reach was refused" ELSE ""
RunWrong(w, u, r) ==
    IF r.ok /\ ~Usable(w, u, ToSet(r.uses)) THEN "a question using a field out of reach was answered"
    ELSE IF r.ok /\ ~(ToSet(r.cols) \subseteq Fields(w, u)) THEN "a column out of reach is in the answer"
    ELSE IF r.ok /\ ~(ToSet(r.tabs) \subseteq Views(w, u)) THEN "a view out of reach is in the answer"
    ELSE IF r.base /\ ~r.same /\ Usable(w, u, ToSet(r.uses)) /\ ToSet(r.path) \subseteq Views(w, u)
         /\ ToSet(r.soft) \subseteq Fields(w, u) THEN "a question in reach was refused"
    ELSE ""
Clauses(o) ==
    LET w == o.w  u == o.u IN
    {<<"list", k, ListWrong(w, u, o.lists[k])>> : k \in 1..Len(o.lists)}
    \cup {<<"get", k, GetWrong(w, u, o.gets[k])>> : k \in 1..Len(o.gets)}
    \cup {<<"run", k, RunWrong(w, u, o.runs[k])>> : k \in 1..Len(o.runs)}
    \cup {<<"views", 1, IF ToSet(o.views) = Views(w, u) THEN "" ELSE "views listed">>,
          <<"boards", 1, IF ToSet(o.boards) = Boards(w, u) THEN "" ELSE "dashboards listed">>,
          <<"sets", 1, IF ToSet(o.sets) \subseteq Views(w, u) THEN "" ELSE "a set of a view out of reach is listed">>,
          <<"reach", 1, IF ToSet(o.reachf) \subseteq Fields(w, u) /\ ToSet(o.reachv) \subseteq Views(w, u) THEN "" ELSE "something out of reach is reported as joinable">>}
Init == i \in 1..Len(Obs) /\ verdict = "read"
Next == /\ verdict = "read"
        /\ LET V == {c \in Clauses(Obs[i]) : c[3] # ""} IN
             verdict' = IF \A c \in V : PrintT(<<"VERDICT", i, c[1] \o " " \o ToString(c[2]) \o " " \o c[3]>>) THEN (IF V = {} THEN "accepted" ELSE "rejected") ELSE "x"
        /\ UNCHANGED i
=============================================================================
