------------------------------- MODULE Same -------------------------------
(* Answers are a function of the definitions, the user and the request.  A process is [seed, load]: how it hashes, and in
   which order (or by which way: "files") it was given the definitions.  What it answers is [kind, text, bag, words]: a query
   ("sql"), a list in order (text) and without it (bag), or a refusal, with its message as a bag of words.

   Two processes that loaded alike give the same text.  Processes that loaded in different orders give the same sql, and
   lists of the same elements.                                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Equal(a, b) ==
    /\ a.kind = b.kind
    /\ CASE a.kind = "sql" -> a.text = b.text
         [] a.kind = "list" -> a.bag = b.bag /\ (a.load = b.load => a.text = b.text)
         [] OTHER -> a.bag = b.bag
\* the machine: what has been said once is said for good
Extends(said, key, a) == key \in DOMAIN said => \A b \in said[key] : Equal(a, b)
Say(said, key, a) == IF key \in DOMAIN said THEN [said EXCEPT ![key] = @ \cup {a}] ELSE said @@ (key :> {a})
=============================================================================
