-------------------------- MODULE ValidationModel --------------------------
(* A project in which every kind of reference occurs, parts of it left out, and nothing, one thing or two things broken.  *)
EXTENDS Validation
VARIABLES w, left, go
vars == <<w, left, go>>
Pick(S) == {RandomElement(S)}
F(n, k) == [name |-> n, kind |-> k, frames |-> IF k = "time" THEN <<"raw", "date", "month">> ELSE <<>>, pk |-> n = "id"]
To(v, n) == [v |-> v, n |-> n]
R(slot, v, i, tv, n) == [slot |-> slot, v |-> v, i |-> i, to |-> To(tv, n)]
Orders == <<F("id", "dim"), F("status", "dim"), F("amount", "dim"), F("customer", "dim"), F("loud", "dim"), F("placed", "time"), F("total", "met"), F("tally", "met"),
            F("running", "cum"), F("ratio", "met"), F("stock", "met"), F("spread", "met")>>
Base == [models |-> <<"m">>, grants |-> <<"red", "blue">>, dashs |-> <<"board", "second">>,
    views |-> <<[name |-> "orders", fields |-> Orders],
                [name |-> "people", fields |-> <<F("id", "dim"), F("region", "dim"), F("joined", "time"), F("heads", "met")>>],
                [name |-> "visits", fields |-> <<F("id", "dim"), F("page", "dim"), F("seen", "time"), F("hits", "met")>>]>>,
    sets |-> <<[v |-> 1, name |-> "few"], [v |-> 1, name |-> "most"], [v |-> 2, name |-> "ppl"]>>,
    ids |-> <<[v |-> 1, name |-> "k1", type |-> "primary"], [v |-> 1, name |-> "k2", type |-> "foreign"], [v |-> 2, name |-> "k2", type |-> "primary"],
              [v |-> 3, name |-> "k3", type |-> "primary"], [v |-> 3, name |-> "via", type |-> "join"], [v |-> 1, name |-> "pair", type |-> "composite"],
              [v |-> 1, name |-> "k4", type |-> "foreign"], [v |-> 2, name |-> "k4", type |-> "as"]>>,
    opts |-> <<>>,
    refs |-> <<R("model", 1, 0, "", "m"), R("model", 2, 0, "", "m"), R("model", 3, 0, "", "m"),
               R("date", 1, 0, "", "placed"), R("date", 2, 0, "", "joined"), R("date", 3, 0, "", "seen"),
               R("id sql", 1, 1, "", "id"), R("id sql", 1, 2, "", "customer"), R("id sql", 2, 3, "", "id"), R("id sql", 3, 4, "", "id"), R("id view", 3, 5, "", "people"),
               R("join on", 3, 5, "visits", "id"), R("join on", 3, 5, "people", "id"), R("id part", 1, 6, "", "k1"), R("id part", 1, 6, "", "k2"),
               R("id sql", 1, 7, "", "customer"), R("id sql", 2, 8, "", "id"),
               R("sql", 1, 5, "", "status"), R("sql met", 1, 7, "", "amount"), R("sql met", 1, 10, "", "total"), R("sql met", 1, 10, "", "tally"),
               R("filter", 1, 7, "", "status"), R("canon", 1, 8, "", "placed"), R("drill", 1, 2, "", "customer"), R("drill", 1, 2, "", "total"),
               R("measure", 1, 9, "", "total"), R("distinct", 1, 12, "", "id"), R("nad", 1, 11, "", "placed_raw"), R("window", 1, 11, "", "status"),
               R("event", 1, 0, "", "status"), R("always", 1, 0, "", "status"), R("access", 1, 0, "orders", "status"), R("access", 2, 0, "people", "region"),
               R("grant view", 2, 0, "", "red"), R("grant field", 1, 4, "", "blue"),
               R("set field", 1, 1, "", "status"), R("set field", 1, 1, "", "placed_date"), R("set set", 1, 2, "", "few"), R("set set", 1, 2, "people", "ppl"), R("set field", 2, 3, "", "region"),
               R("map", 1, 1, "orders", "status"), R("map", 1, 1, "visits", "page"), R("map", 1, 2, "", "hits"), R("map", 1, 2, "", "total"),
               R("dash model", 1, 0, "", "m"), R("dash metric", 1, 0, "orders", "total"), R("dash metric", 1, 0, "", "hits"), R("dash slice", 1, 0, "orders", "placed_month"),
               R("el filter", 1, 0, "orders", "status"), R("dash filter", 1, 0, "people", "region"), R("dash model", 2, 0, "", "m"), R("dash metric", 2, 0, "visits", "hits")>>]
Keep == {"model", "date", "id sql", "id view", "join on", "id part", "measure", "nad", "distinct", "dash model", "sql met"}
Init == w = Base /\ left = 0 /\ go = 0
Drop == /\ go = 0
        /\ \E z \in Pick(1..3) :
             w' = [w EXCEPT !.refs = SelectSeq(@, LAMBDA r : r.slot \in Keep \/ z # 1 \/ RandomElement(1..4) > 1)]
        /\ \E n \in Pick({0, 1, 1, 1, 2, 2}) : left' = n
        /\ go' = 1
Qualify == /\ go = 1
           /\ w' = [w EXCEPT !.refs = [i \in 1..Len(w.refs) |-> LET r == w.refs[i] IN
                                          \* (a view that is joined under a second name names its date without its own)
                                          IF r.slot \in Homely /\ ~(r.slot = "date" /\ \E d \in RangeOf(w.ids) : d.type = "as" /\ d.v = r.v) /\ r.to.v = "" /\ RandomElement(1..3) = 1 THEN [r EXCEPT !.to = To(w.views[r.v].name, r.to.n)] ELSE r]]
           /\ go' = 2 /\ UNCHANGED left
Good == go = 2 /\ left = 0 /\ go' = 3 /\ UNCHANGED <<w, left>>
GoodOption == /\ go = 2 /\ left = 0 /\ Len(w.opts) < 3
              /\ \E c \in Pick({c \in OptionChoices : ~BadOption(c)}) : /\ \A d \in RangeOf(w.opts) : d.on # c.on \/ d.prop # c.prop
                                                                        /\ w' = [w EXCEPT !.opts = Append(@, c)]
              /\ UNCHANGED <<left, go>>
\* one thing broken; a name of its own for every reference that leads nowhere
Astray0(i) == "nope_" \o ToString(i) \o "x"
Astray == \E i \in Pick(1..Len(w.refs)) : \E k \in Pick(1..3) :
            LET r == w.refs[i] IN
            w' = [w EXCEPT !.refs[i].to = IF k = 1 /\ r.to.v # "" THEN To(Astray0(i), r.to.n)
                                          ELSE IF k = 2 /\ r.slot \in {"canon", "date", "measure"} THEN To(r.to.v, "id")
                                          ELSE IF k = 2 /\ r.slot = "nad" THEN To(r.to.v, "status") ELSE IF k = 2 /\ r.slot = "window" THEN To(r.to.v, "total")
                                          ELSE To(r.to.v, Astray0(i))]
Bare == \E i \in Pick({i \in 1..Len(w.refs) : w.refs[i].to.v # ""}) : w' = [w EXCEPT !.refs[i].to.v = ""]
RenameView == \E v \in Pick(1..3) : w' = [w EXCEPT !.views[v].name = @ \o "_2"]
RenameField == \E v \in Pick(1..3) : \E k \in Pick(1..Len(w.views[v].fields)) : w' = [w EXCEPT !.views[v].fields[k].name = @ \o "_2"]
Frameless == \E v \in Pick(1..3) : \E k \in Pick({k \in 1..Len(w.views[v].fields) : w.views[v].fields[k].kind = "time"}) : \E s \in Pick({<<"raw">>, <<"date">>, <<"raw", "date">>}) :
               w' = [w EXCEPT !.views[v].fields[k].frames = s]
RenameSet == \E k \in Pick(1..3) : w' = [w EXCEPT !.sets[k].name = @ \o "_2"]
RenameGrant == \E k \in Pick(1..2) : w' = [w EXCEPT !.grants[k] = @ \o "_2"]
RenameModel == w' = [w EXCEPT !.models[1] = @ \o "_2"]
RenameId == \E k \in Pick({1, 2, 3, 7, 8}) : w' = [w EXCEPT !.ids[k].name = @ \o "_2"]
Double == \E z \in Pick(1..4) :
            CASE z = 1 -> \E v \in Pick(1..3) : \E a \in Pick(1..Len(w.views[v].fields)) : \E b \in Pick((1..Len(w.views[v].fields)) \ {a}) : w' = [w EXCEPT !.views[v].fields[a].name = w.views[v].fields[b].name]
              [] z = 2 -> w' = [w EXCEPT !.views[3].name = w.views[1].name]
              [] z = 3 -> w' = [w EXCEPT !.dashs[2] = w.dashs[1]]
              [] OTHER -> w' = [w EXCEPT !.ids[2].name = "k1"]
SecondKey == \E v \in Pick(1..3) : w' = [w EXCEPT !.views[v].fields[2].pk = TRUE]
Circle == \E z \in Pick(1..4) :
            w' = [w EXCEPT !.refs = Append(@, CASE z = 1 -> R("sql", 1, 2, "", "loud") [] z = 2 -> R("sql", 1, 5, "orders", "loud")
                                                [] z = 3 -> R("set set", 1, 1, "", "most") [] OTHER -> R("sql met", 1, 7, "", "ratio"))]
Option == \E c \in Pick({c \in OptionChoices : BadOption(c)}) : w' = [w EXCEPT !.opts = Append(@, c)]
Break == /\ go = 2 /\ left > 0
         /\ \E z \in Pick(1..17) :
              CASE z \in 1..5 -> Astray [] z = 6 -> RenameView [] z = 7 -> RenameField [] z = 8 -> RenameSet [] z = 9 -> RenameGrant [] z = 10 -> RenameModel
                [] z = 11 -> RenameId [] z = 12 -> Double [] z = 13 -> SecondKey [] z = 14 -> Circle [] z = 15 -> Frameless [] z = 16 -> Bare [] OTHER -> Option
         /\ left' = left - 1 /\ go' = IF left = 1 THEN 3 ELSE go
Next == go >= 0 /\ (Drop \/ Qualify \/ Good \/ GoodOption \/ Break)
Emit == go = 3 => PrintT(<<"CASE", ToJson([w |-> w])>>)
----------------------------------------------------------------------------
\* every bad option on its own: one state per option
OptInit == /\ \E c \in OptionChoices : w = [Base EXCEPT !.opts = <<c>>]
           /\ left = 0 /\ go = 3
RefInit == /\ \E i \in 1..Len(Base.refs) : \E k \in 1..2 :
                LET r == Base.refs[i] IN w = [Base EXCEPT !.refs[i].to = IF k = 1 /\ r.to.v # "" THEN To(Astray0(i), r.to.n) ELSE To(r.to.v, Astray0(i))]
           /\ left = 0 /\ go = 3
Stop == go < 0 /\ UNCHANGED vars
\* laws
BaseSound == Sound(Base)
AstrayBroken == (go = 3 /\ Broken(w) # {}) => ~Sound(w)
=============================================================================
