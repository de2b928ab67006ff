------------------------------ MODULE MqlModel ------------------------------
(* Questions and the ways to write them down in MQL, one a step; some texts are broken on the way.                          *)
EXTENDS Mql, Json
CONSTANTS Kinds, Hows, Wounds
VARIABLES c
Pick(S) == {RandomElement(S)}
Flip(n) == RandomElement(1..n) = 1
RECURSIVE Draw(_, _)
Draw1(x, S, n) == <<x>> \o Draw(S \ {x}, n - 1)
Draw(S, n) == IF n <= 0 \/ S = {} THEN <<>> ELSE Draw1(RandomElement(S), S, n)
Full(p) == IF p[1] = "" THEN p[2] ELSE p[1] \o "." \o p[2]
Name(p) == IF Flip(2) THEN Full(p) ELSE p[2]
Written(q) == [i \in 1..Len(q) |-> Name(q[i])]
In(v, S) == {<<v, n>> : n \in S}
OMets == In("orders", {"n_orders", "sum_amount", "avg_amount", "max_amount", "people", "count", "max"})
ODims == In("orders", {"status", "type", "level", "first", "source", "placed_date", "placed_month", "amount", "year_no"}) \cup In("people", {"region"})
\* (a mapped name stands for one of the others: status or placed)
UnMapped == In("orders", {"type", "level", "first", "source", "amount", "year_no"})
Maps == In("", {"date", "month", "week", "channel"})
SMets == In("sessions", {"n_sessions", "sum_dur", "max_dur"})
CMets == In("orders", {"cum_amount", "n_orders"})
Mets(kind, n) == CASE kind = "merged" -> Draw(OMets, n) \o Draw(SMets, 1)
                   [] kind = "cumulative" -> IF n = 1 THEN << <<"orders", "cum_amount">> >> ELSE Draw(CMets, 2)
                   [] kind = "dims" -> <<>>
                   [] OTHER -> Draw(OMets, n)
Dims(kind, n) == CASE kind = "merged" -> Draw(In("", {"date", "month", "channel"}), n)
                   [] kind = "cumulative" -> << <<"orders", "placed_date">> >> \o Draw(In("orders", {"status"}), n)
                   [] kind = "mapped" -> Draw(Maps, 1) \o Draw(UnMapped, n)
                   [] kind = "dims" -> Draw(ODims, n + 1)
                   [] OTHER -> Draw(ODims, n)
Texts == {"a", "b", "by", "a -- b", "x, order by", "it's", "n_orders"}
TextAtom(f, op, vs) == [op |-> op, f |-> f, v |-> IF op \in {"null", "notnull"} THEN <<>> ELSE IF op \in {"in", "notin"} THEN vs ELSE <<vs[1]>>]
Cmps == {"eq", "ne", "lt", "le", "gt", "ge"}
Atom(kind, r) ==
   IF kind \in {"mapped", "merged"} /\ r = 1 THEN [op |-> RandomElement({"lt", "le", "gt", "ge"}), f |-> "date", v |-> <<"2024-01-08T00:00:00">>]
   ELSE IF kind = "merged" THEN TextAtom("channel", RandomElement({"eq", "ne", "in", "notin", "null", "notnull"}), Draw(Texts, 2))
   ELSE IF r <= 3 THEN [op |-> RandomElement(Cmps), f |-> "orders.amount", v |-> <<RandomElement(0..5)>>]
   ELSE IF r = 4 /\ kind # "funnel" THEN TextAtom("people.region", RandomElement({"eq", "ne", "in", "notin", "null", "notnull"}), Draw(Texts, 2))
   ELSE IF r = 5 THEN TextAtom("orders.type", RandomElement({"eq", "ne", "null", "notnull"}), Draw(Texts, 2))
   ELSE TextAtom("orders.status", RandomElement({"eq", "ne", "in", "notin", "null", "notnull"}), Draw(Texts, 2))
RECURSIVE Cond(_, _)
Cond(kind, depth) == IF depth = 0 \/ Flip(2) THEN Atom(kind, RandomElement(1..7))
                     ELSE [op |-> RandomElement({"and", "or"}), args |-> <<Cond(kind, depth - 1), Cond(kind, depth - 1)>>]
RECURSIVE Hav(_, _)
Hav(mets, depth) == IF depth = 0 \/ Flip(2) THEN [op |-> RandomElement(Cmps), f |-> Full(RandomElement({mets[i] : i \in 1..Len(mets)})), v |-> <<RandomElement(0..6)>>]
                    ELSE [op |-> RandomElement({"and", "or"}), args |-> <<Hav(mets, depth - 1), Hav(mets, depth - 1)>>]
Step == IF Flip(2) THEN Atom("funnel", RandomElement(1..7)) ELSE [op |-> "and", args |-> <<Atom("funnel", RandomElement(1..7)), Atom("funnel", 1)>>]
Order(names, n) == LET d == Draw({names[i] : i \in 1..Len(names)}, n)
                   IN d
Direct(names) == [i \in 1..Len(names) |-> [by |-> names[i], dir |-> RandomElement({"", "asc", "desc"})]]
Opt(b, x) == IF b THEN <<x>> ELSE <<>>
Whole == {"bare", "star", "alias", "nested", "with"}
\* a question, as the meaning it has
Ask(kind, how, ms, ds, mn, dn) ==
  [st |-> "ok", mode |-> "", seen |-> {}, open |-> FALSE, metrics |-> mn, dimensions |-> dn,
   where |-> Opt(Flip(2), Cond(kind, 2)), having |-> Opt(ms # <<>> /\ Flip(3), Hav(ms, 1)),
   order |-> IF Flip(2) THEN Direct(Draw({mn[i] : i \in 1..Len(mn)} \cup {dn[i] : i \in 1..Len(dn)}, RandomElement(1..2))) ELSE <<>>,
   limit |-> Opt(how \in Whole /\ Flip(3), RandomElement({"0", "1", "2", "5"})),
   view |-> Opt(kind = "funnel" /\ (Len(ms) > 1 \/ Flip(2)), "orders"),
   steps |-> IF kind = "funnel" THEN [i \in 1..RandomElement(1..3) |-> Step] ELSE <<>>,
   within |-> IF kind = "funnel" THEN <<RandomElement({"1", "3", "40"}), RandomElement({"day", "days", "weeks", "months"})>> ELSE <<>>]
----------------------------------------------------------------------------
\* writing it down
Lx(k, t) == [k |-> k, t |-> t, c |-> <<>>]
Kw(t) == Lx("kw", t)
CondLx(x) == [k |-> "cond", t |-> "", c |-> x]
RECURSIVE Commas(_, _)
Commas(parts, i) == IF i > Len(parts) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<Lx("comma", ",")>>) \o parts[i] \o Commas(parts, i + 1)
NameList(q) == Commas([i \in 1..Len(q) |-> <<Lx("name", q[i])>>], 1)
RECURSIVE Flat(_, _)
Flat(parts, i) == IF i > Len(parts) THEN <<>> ELSE parts[i] \o Flat(parts, i + 1)
Tail5(q) == << IF q.dimensions = <<>> THEN <<>> ELSE <<Kw("BY")>> \o NameList(q.dimensions),
               IF q.where = <<>> THEN <<>> ELSE <<Kw("WHERE"), CondLx(q.where[1])>>,
               IF q.having = <<>> THEN <<>> ELSE <<Kw("HAVING"), CondLx(q.having[1])>>,
               IF q.order = <<>> THEN <<>> ELSE <<Kw("ORDER BY")>> \o
                    Commas([i \in 1..Len(q.order) |-> <<Lx("name", q.order[i].by)>> \o Opt(q.order[i].dir # "", Lx("dir", q.order[i].dir))], 1),
               IF q.limit = <<>> THEN <<>> ELSE <<Kw("LIMIT"), Lx("num", q.limit[1])>> >>
FunnelLx(q) == IF q.steps = <<>> THEN <<>>
               ELSE (IF q.view = <<>> THEN <<>> ELSE <<Kw("FOR"), Lx("name", q.view[1])>>) \o <<Kw("FUNNEL")>> \o
                    Flat([i \in 1..Len(q.steps) |-> Opt(i > 1, Kw("THEN")) \o <<CondLx(q.steps[i])>>], 1) \o
                    <<Kw("WITHIN"), Lx("num", q.within[1]), Lx("unit", q.within[2])>>
Lexemes(q, perm) == NameList(q.metrics) \o FunnelLx(q) \o Flat([i \in 1..5 |-> Tail5(q)[perm[i]]], 1)
Hurt(s, how, i) == CASE how = "none" -> s
                     [] how = "drop" -> SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
                     [] how = "comma" -> SubSeq(s, 1, i) \o <<Lx("comma", ",")>> \o SubSeq(s, i + 1, Len(s))
                     [] how = "twice" -> LET K == {j \in 1..Len(s) : s[j].k = "kw" /\ s[j].t # "THEN"} IN IF K = {} THEN s ELSE s \o <<s[RandomElement(K)]>>
                     [] how \in {"no", "nothing"} -> s
                     [] how = "unknown" -> IF s[i].k = "name" THEN [s EXCEPT ![i].t = "no_such_field"] ELSE s
Ids == <<1, 2, 3, 4, 5>>
Same(m, q) == /\ m.st = "ok" /\ m.metrics = q.metrics /\ m.dimensions = q.dimensions /\ m.where = q.where /\ m.having = q.having
              /\ m.order = q.order /\ m.limit = q.limit /\ m.view = q.view /\ m.steps = q.steps /\ m.within = q.within
Statement(q, perm, wound) == LET s == Lexemes(q, perm) IN [s |-> s, w |-> wound]
Noise(n) == [i \in 1..n |-> [sep |-> RandomElement(1..8), style |-> RandomElement(1..4)]]
Two == {"union", "comma", "cross", "join", "scalar"}
Case(how, kind, qa, sa, ta, qb, sb) == [how |-> how, kind |-> kind, a |-> qa, whole |-> sa, text |-> ta, noise |-> Noise(Len(ta) + 1), b |-> qb, btext |-> sb, bnoise |-> Noise(Len(sb) + 1),
    end |-> RandomElement({"", ";", " ; ", "\n"}), gap |-> RandomElement(1..5), fn |-> RandomElement(1..3)]
None == [metrics |-> <<>>, dimensions |-> <<>>]
Init == c = [how |-> ""]
Next == /\ c.how # "never"
        /\ \E kind \in Pick(Kinds), how \in Pick(Hows), wound \in Pick(Wounds) :
            \E ms \in Pick({0}), nm \in Pick({1, 1, 2}), nd \in Pick({0, 1, 2}) :
             \E mets \in {Mets(kind, nm)}, dims \in {Dims(kind, nd)} :
              \E mn \in {Written(mets)}, dn \in {Written(dims)} :
               \E q \in {Ask(kind, how, mets, dims, mn, dn)}, perm \in {IF Flip(4) THEN Draw(1..5, 5) ELSE Ids} :
                \E s \in {Lexemes(q, perm)} :
                 \E t \in {Hurt(s, wound, RandomElement(1..Len(s)))} :
                  \E bm \in {Mets("single", 1)}, bd \in {Dims("single", 1)} :
                   \E qb \in {[Ask("single", "b", bm, bd, Written(bm), Written(bd)) EXCEPT !.having = <<>>]} :
                    c' = Case(how, kind, q, s, t, IF how \in Two THEN qb ELSE None, IF how \in Two THEN Lexemes(qb, Ids) ELSE <<>>)
Emit == c.how # "" => PrintT(<<"CASE", ToJson([c EXCEPT !.a = Meaning(c.text), !.whole = <<>>])>>)
----------------------------------------------------------------------------
\* laws of the language: what was written down is what is read, also with the clauses in another order
WriteRead == c.how # "" => Same(Meaning(c.whole), c.a)
Second == c.how \in Two => Same(Meaning(c.btext), c.b)
=============================================================================
