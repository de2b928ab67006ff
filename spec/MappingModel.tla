---------------------------- MODULE MappingModel ----------------------------
(* Small worlds with mappings, and requests that name them.                                                               *)
EXTENDS Mapping
CONSTANTS NViews, Letters, NMaps
VARIABLES w, q, go
vars == <<w, q, go>>
Pick(S) == {RandomElement(S)}
V == 1..NViews
Comp(n) == CASE n = 1 -> <<1, 1, 2, 3>> [] n = 2 -> <<1, 1, 2, 2>> [] n = 3 -> <<1, 2, 3, 4>> [] OTHER -> <<1, 1, 1, 2>>
Flip(n) == RandomElement(1..n) = 1
MN == <<"m", "n", "o">>
Init == w = [comp |-> <<>>, date |-> <<>>, mets |-> <<>>, maps |-> <<>>, denied |-> <<>>] /\ q = [mets |-> <<>>, dims |-> <<>>, where |-> <<>>, order |-> <<>>] /\ go = 0
Free == [v : V, f : Letters] \ UNION {RangeOf(w.maps[k].fields) : k \in 1..Len(w.maps)}
FreeM == [v : V, f : {"m", "n"}] \ UNION {RangeOf(w.maps[k].fields) : k \in 1..Len(w.maps)}
AllM == UNION {{[v |-> v, f |-> w.mets[v][i].name] : i \in 1..Len(w.mets[v])} : v \in V}
Start == /\ go = 0
         /\ \E c \in Pick(1..4) : w' = [w EXCEPT !.comp = Comp(c)]
         /\ go' = 1 /\ UNCHANGED q
Date == /\ go = 1
        /\ IF Len(w.date) < NViews
           THEN /\ \E d \in Pick(1..5) : \E n \in Pick(1..3) : \E o \in Pick(1..4) :
                     w' = [w EXCEPT !.date = Append(@, IF d = 1 THEN "" ELSE "day"),
                                    !.mets = Append(@, [i \in 1..n |-> [name |-> MN[i], date |-> IF i = 2 /\ o = 1 THEN "alt" ELSE ""]])]
                /\ UNCHANGED go
           ELSE go' = 2 /\ UNCHANGED w
        /\ UNCHANGED q
Map == /\ go = 2
       /\ IF Len(w.maps) < NMaps
          THEN /\ \E n \in Pick(1..4) : \E met \in Pick(1..5) :
                    LET pool == IF met = 1 THEN FreeM \cap AllM ELSE Free
                    IN \E a \in Pick(pool) : \E b \in Pick(pool) : \E c \in Pick(pool) : \E d \in Pick(pool) :
                         LET L == SubSeq(<<a, b, c, d>>, 1, n)
                             U == SelectSeq([i \in 1..n |-> [i |-> i, f |-> L[i]]], LAMBDA x : \A j \in 1..(x.i - 1) : L[j] # x.f)
                         IN w' = [w EXCEPT !.maps = Append(@, [kind |-> IF met = 1 THEN "met" ELSE "dim", fields |-> [i \in 1..Len(U) |-> U[i].f]])]
               /\ UNCHANGED go
          ELSE /\ go' = 3
               /\ \E z \in Pick(1..3) : \E f \in Pick(UNION {RangeOf(w.maps[k].fields) : k \in 1..Len(w.maps)} \cup {[v |-> 1, f |-> "day"]}) :
                  \E g \in Pick(UNION {RangeOf(w.maps[k].fields) : k \in 1..Len(w.maps)}) :
                    w' = [w EXCEPT !.denied = IF z = 1 THEN <<f, g>> ELSE IF z = 2 THEN <<f>> ELSE <<>>]
       /\ UNCHANGED q
\* items
R(f) == [k |-> 0, f |-> f]
M(k) == [k |-> k, f |-> [v |-> 0, f |-> ""]]
OpenM == {f \in AllM : f \notin RangeOf(w.denied)}
Plain == {f \in [v : V, f : Letters \cup {"z"}] : f \notin RangeOf(w.denied)}
DimMaps == {k \in 1..Len(w.maps) : w.maps[k].kind = "dim"}
MetMaps == {k \in 1..Len(w.maps) : w.maps[k].kind = "met"}
Near(vs) == {f \in Plain : \E v \in vs : w.comp[f.v] = w.comp[v]}
SomeDim(k, vs) == IF k <= 6 /\ DimMaps # {} THEN M(RandomElement(DimMaps)) ELSE IF k <= 8 THEN M(DateKey(w)) ELSE
                  IF vs = {} \/ Near(vs) = {} THEN R(RandomElement(Plain)) ELSE R(RandomElement(Near(vs)))
Ask == /\ go \in 3..22
       /\ \E nm \in Pick({0, 1, 1, 2}) : \E a \in Pick(OpenM) : \E b \in Pick(OpenM) : \E c \in Pick(1..8) :
          \E nd \in Pick({0, 1, 2}) : \E nw \in Pick({0, 1, 2}) : \E no \in Pick({0, 0, 1}) : \E near \in Pick(1..3) :
          \E k1 \in Pick(1..11) : \E k2 \in Pick(1..11) : \E k3 \in Pick(1..11) : \E k4 \in Pick(1..11) :
            LET b2 == IF near = 1 THEN b ELSE IF {f \in OpenM : w.comp[f.v] = w.comp[a.v] /\ f # a} # {} THEN RandomElement({f \in OpenM : w.comp[f.v] = w.comp[a.v] /\ f # a}) ELSE b IN
            \E bb \in {b2} :
            LET m == IF nm = 0 THEN <<>> ELSE IF c = 1 /\ MetMaps # {} THEN <<M(RandomElement(MetMaps))>>
                     ELSE IF nm = 1 \/ bb = a THEN <<R(a)>> ELSE IF c = 2 /\ MetMaps # {} THEN <<R(a), M(CHOOSE k \in MetMaps : TRUE)>> ELSE <<R(a), R(bb)>> IN
            \E mm \in {m} :
            LET vs == {i.f.v : i \in {i \in RangeOf(mm) : i.k = 0}} IN
            \E d1 \in {SomeDim(k1, vs)} : \E d2 \in {SomeDim(k2, vs)} : \E w1 \in {SomeDim(k3, vs)} : \E w2 \in {SomeDim(k4, vs)} :
              LET d == IF nd = 0 THEN <<>> ELSE IF nd = 1 \/ d1 = d2 THEN <<d1>> ELSE <<d1, d2>>
                  x == IF nw = 0 THEN <<>> ELSE IF nw = 1 THEN <<w1>> ELSE <<w1, w2>>
                  o == IF no = 0 \/ d = <<>> THEN <<>> ELSE <<d[1]>>
              IN q' = [mets |-> mm, dims |-> d, where |-> x, order |-> o]
       /\ go' = go + 1 /\ UNCHANGED w
Next == go >= 0 /\ (Start \/ Date \/ Map \/ Ask)
Asked == go > 3 /\ q.mets \o q.dims # <<>> /\ Used(q) # {}
Keys == LET RECURSIVE L(_) L(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j IN <<k>> \o L(S \ {k}) IN L(Used(q))
Alt(s, m) == [ks |-> Keys, fs |-> [i \in 1..Len(Keys) |-> s[Keys[i]]], merged |-> m]
Alts == {Alt(s, Merged(w, q, s)) : s \in Acceptable(w, q)} \cup (IF Real(q) = {} /\ q.mets # <<>> THEN {Alt(s, TRUE) : s \in Acceptable(w, q)} ELSE {})
Emit == Asked => PrintT(<<"CASE", ToJson([w |-> w, q |-> q, alts |-> Alts])>>)
----------------------------------------------------------------------------
\* laws: where one group is asked about there is at most one reading of every mapping but the generic date; nothing denied is
\* ever read; another order of the conditions has the same readings
OneReading == Asked => (Cardinality(Comps(w, q)) = 1 /\ (\A k \in Used(q) \ {DateKey(w)} : w.maps[k].kind = "dim" \/ First(w, k, Comps(w, q)) # {}) /\ (DateKey(w) \notin Used(q) \/ q.mets # <<>>) => Cardinality(Acceptable(w, q)) <= 1)
NothingDenied == Asked => \A s \in Acceptable(w, q) : \A k \in DOMAIN s : Seen(w, s[k])
OrderFree == Asked => Acceptable(w, q) = Acceptable(w, [q EXCEPT !.where = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]])
=============================================================================
