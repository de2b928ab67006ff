---------------------------- MODULE HistoryModel ----------------------------
(* All histories up to a bound: the laws of History.                                                                     *)
EXTENDS History
OpsAt == UNION {{Op("user", p, u, 0, 0) : u \in Users} \cup {Op("add", p, f, v, 1) : f \in Moving, v \in Versions}
                \cup {Op("remove", p, f, 0, 1) : f \in Moving} \cup {Op("ask", p, r, 0, 0) : r \in Reqs}
                \cup {Op("enter", p, k, 0, 0) : k \in {k \in Repls : Len(s[p].stack) < Depth}}
                \cup {Op("leave", p, e, 0, 0) : e \in {e \in {0} : Len(s[p].stack) > 0}} : p \in Projects}
AllNext == Len(ops) < Length /\ \E o \in OpsAt : Step(o) /\ UNCHANGED due
=============================================================================
