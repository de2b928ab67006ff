---------------------------- MODULE SameMachine ----------------------------
(* Processes that keep to Same, and one that does not: a request answered by an order of hashing is found out as soon as two
   processes that hash differently have been asked.                                                                       *)
EXTENDS Same
CONSTANTS Keys, Seeds, Loads, Fickle
VARIABLES said, bad, asked
Answer(k, s, l) == [kind |-> IF k = 1 THEN "sql" ELSE "list", text |-> IF Fickle = k THEN <<k, s % 2>> ELSE IF k = 1 THEN <<k>> ELSE <<k, l>>, bag |-> <<k>>, load |-> l]
Init == said = <<>> /\ bad = FALSE /\ asked = {}
Next == \E k \in Keys, s \in Seeds, l \in Loads :
          /\ <<k, s, l>> \notin asked /\ asked' = asked \cup {<<k, s, l>>}
          /\ bad' = (bad \/ ~Extends(said, k, Answer(k, s, l)))
          /\ said' = Say(said, k, Answer(k, s, l))
Sound == Fickle = 0 => ~bad
Complete == (Fickle # 0 /\ \E s, t \in Seeds, l \in Loads : s % 2 # t % 2 /\ <<Fickle, s, l>> \in asked /\ <<Fickle, t, l>> \in asked) => bad
=============================================================================
