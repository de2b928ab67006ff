----------------------------- MODULE ShapeModel -----------------------------
(* Requests, drawn by their shape: how many dimensions and metrics, which of them the order names and how, the limit.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dialects, Forms, MaxDims, MaxMets
VARIABLES r, go
Pick(S) == {RandomElement(S)}
Flip(n) == RandomElement(1..n) = 1
Seqs(S) == UNION {{f \in [1..n -> S] : \A i \in 1..n : \A j \in 1..n : i # j => f[i] # f[j]} : n \in 0..2}
Init == r = 0 /\ go = TRUE
Next == /\ go /\ go' = FALSE
        /\ \E nd \in Pick(0..MaxDims), nm \in Pick(0..MaxMets), d \in Pick(Dialects), form \in Pick(Forms) :
           \E q \in (IF nd + nm = 0 \/ Flip(4) THEN {<<>>} ELSE Pick(Seqs(1..(nd + nm)))) :
             r' = [nd |-> nd, nm |-> IF nd + nm = 0 THEN 1 ELSE nm, dialect |-> d, form |-> form,
                order |-> [k \in 1..Len(q) |-> [i |-> q[k], dir |-> RandomElement(IF k > 0 THEN {"", "asc", "desc", "ASC", "DESC"} ELSE {""})]],
                limit |-> RandomElement({-2, -1, 0, 1, 2, 3, 5, 100}),
                pk |-> nd > 0 /\ Flip(5), force |-> Flip(3), where |-> Flip(3), having |-> nm > 0 /\ Flip(4), raw |-> Flip(8), views |-> RandomElement(1..3),
                bare |-> Flip(4), up |-> Flip(6)]
Emit == ~go => PrintT(<<"CASE", ToJson(r)>>)
=============================================================================
