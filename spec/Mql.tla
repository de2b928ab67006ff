-------------------------------- MODULE Mql --------------------------------
(* The language MQL: what a statement asks, as a machine that reads it lexeme by lexeme, and what SQL around it makes of    *)
(* the answer.  A lexeme: [k |-> kind, t |-> text, c |-> condition]; kinds: kw (a keyword), name, num, comma, cond (a       *)
(* condition, also a step of a funnel), dir (asc, desc), unit.  Comments, spaces and letter case are not lexemes.          *)
(* The meaning: [st |-> "ok" | "refused" | "free", metrics, dimensions, where, having, order, limit, funnel parts];         *)
(* "free": the language says nothing about such a text.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Clauses == {"BY", "WHERE", "HAVING", "ORDER BY", "LIMIT", "FOR", "FUNNEL", "WITHIN"}
Nothing == [st |-> "ok", mode |-> "MQL", seen |-> {}, metrics |-> <<>>, dimensions |-> <<>>, where |-> <<>>, having |-> <<>>,
            order |-> <<>>, limit |-> <<>>, view |-> <<>>, steps |-> <<>>, within |-> <<>>, open |-> TRUE]
Refuse(m) == [m EXCEPT !.st = "refused"]
Free(m) == IF m.st = "refused" THEN m ELSE [m EXCEPT !.st = "free"]
\* open: the clause waits for another element
Close(m) ==
  IF ~m.open THEN m
  ELSE CASE m.mode = "MQL" /\ m.metrics = <<>> -> m                      \* a question of dimensions only
         [] m.mode = "BY" /\ m.dimensions = <<>> -> Free(m)
         [] m.mode \in {"MQL", "BY"} -> Refuse(m)                        \* a comma with nothing after it
         [] m.mode \in {"LIMIT", "FUNNEL", "WITHIN"} -> Refuse(m)
         [] OTHER -> Free(m)
Add(m, names, x) ==
  IF x.k = "comma" THEN (IF m.open THEN Refuse(m) ELSE [m EXCEPT !.open = TRUE])
  ELSE IF x.k = "name" /\ m.open THEN (IF m.mode = "BY" THEN [m EXCEPT !.dimensions = Append(@, x.t), !.open = FALSE]
                                       ELSE [m EXCEPT !.metrics = Append(@, x.t), !.open = FALSE])
  ELSE Refuse(m)
Read(m, x) ==
  IF x.k = "kw" THEN
     IF x.t = "THEN" THEN (IF m.mode # "FUNNEL" THEN Free(m) ELSE IF m.open THEN Refuse(m) ELSE [m EXCEPT !.open = TRUE])
     ELSE IF x.t = "WITHIN" /\ m.mode # "FUNNEL" THEN Free(m)
     ELSE LET n == Close(m) IN
          IF x.t \in n.seen THEN Refuse(n) ELSE [n EXCEPT !.mode = x.t, !.seen = @ \cup {x.t}, !.open = TRUE]
  ELSE CASE m.mode \in {"MQL", "BY"} -> Add(m, m.mode, x)
         [] m.mode \in {"WHERE", "HAVING", "FUNNEL"} ->
              IF x.k # "cond" \/ ~m.open THEN Free(m)
              ELSE [m EXCEPT !.open = FALSE, !.where = IF m.mode = "WHERE" THEN <<x.c>> ELSE @, !.having = IF m.mode = "HAVING" THEN <<x.c>> ELSE @,
                             !.steps = IF m.mode = "FUNNEL" THEN Append(@, x.c) ELSE @]
         [] m.mode = "ORDER BY" ->
              IF x.k = "comma" /\ ~m.open THEN [m EXCEPT !.open = TRUE]
              ELSE IF x.k = "name" /\ m.open THEN [m EXCEPT !.open = FALSE, !.order = Append(@, [by |-> x.t, dir |-> ""])]
              ELSE IF x.k = "dir" /\ ~m.open /\ m.order[Len(m.order)].dir = "" THEN [m EXCEPT !.order[Len(m.order)].dir = x.t]
              ELSE Free(m)
         [] m.mode = "LIMIT" -> IF x.k = "num" /\ m.open THEN [m EXCEPT !.open = FALSE, !.limit = <<x.t>>] ELSE Refuse(m)
         [] m.mode = "FOR" -> IF x.k = "name" /\ m.open THEN [m EXCEPT !.open = FALSE, !.view = <<x.t>>] ELSE Free(m)
         [] m.mode = "WITHIN" -> IF x.k = "num" /\ m.within = <<>> THEN [m EXCEPT !.within = <<x.t>>]
                                 ELSE IF x.k = "unit" /\ Len(m.within) = 1 THEN [m EXCEPT !.open = FALSE, !.within = Append(@, x.t)]
                                 ELSE Refuse(m)
         [] OTHER -> Free(m)
RECURSIVE ReadAll(_, _, _)
ReadAll(m, s, i) == IF i > Len(s) THEN Close(m) ELSE ReadAll(Read(m, s[i]), s, i + 1)
Meaning(s) ==
  LET m == ReadAll(Nothing, s, 1) IN
  IF m.metrics = <<>> /\ m.dimensions = <<>> THEN Refuse(m)
  ELSE IF "FUNNEL" \in m.seen /\ "WITHIN" \notin m.seen THEN Refuse(m)
  ELSE IF "FOR" \in m.seen /\ "FUNNEL" \notin m.seen THEN Refuse(m)
  ELSE m
----------------------------------------------------------------------------
\* SQL around the statement: what it makes of the answers (sequences of rows) of the statements in it
Concat(a, b) == a \o b
RECURSIVE Cross(_, _, _)
Cross(a, b, i) == IF i > Len(a) THEN <<>> ELSE [j \in 1..Len(b) |-> a[i] \o b[j]] \o Cross(a, b, i + 1)
Around(how, A, B) ==
  CASE how \in {"bare", "star", "alias", "nested", "with", "paren"} -> A
    [] how = "count" -> << << <<0, Len(A)>> >> >>
    [] how = "where" -> SelectSeq(A, LAMBDA r : r[1] # <<>>)                     \* the first column is not NULL
    [] how = "union" -> [i \in 1..Len(A) |-> << A[i][1] >>] \o [i \in 1..Len(B) |-> << B[i][1] >>]
    [] how \in {"comma", "cross"} -> Cross(A, B, 1)
    [] how = "join" -> SelectSeq(Cross(A, B, 1), LAMBDA r : r[1] # <<>> /\ r[1] = r[1 + (Len(r) - (IF B = <<>> THEN 0 ELSE Len(B[1])))])
    [] how = "scalar" -> << << <<0, Len(A)>>, <<0, Len(B)>> >> >>
=============================================================================
