----------------------------- MODULE DumpModel -----------------------------
(* Histories of a folder: files written by hand, definitions dumped for the first time, everything loaded and saved again in
   place or somewhere else, one definition changed and saved.                                                            *)
EXTENDS Dump
CONSTANTS NText, NAny, Length
VARIABLES s, files, ops, docs
vars == <<s, files, ops, docs>>
Pick(S) == {RandomElement(S)}
Flip(n) == RandomElement(1..n) = 1
Dirs == {<<"models">>, <<"views">>, <<"data", "views">>, <<"models", "deep">>, <<>>}
Names == {"orders", "id_table", "y", "x_venv", "no", "a_model"}
FieldNames == {"aa", "on", "no", "the_id", "n", "bb", "off"}
Kinds == {"dimension", "dimension_group", "measure"}
TextKeys == {"label", "description", "view_label", "group_label", "row_label", "value_format_name"}
AnyKeys == {"extra", "tags", "tiers", "unheard_of", "version"}
Entries(K, n) == LET RECURSIVE Q(_, _)
                     Q(T, m) == IF T = {} \/ m = 0 THEN <<>>
                                ELSE LET k == CHOOSE k \in T : TRUE
                                     IN <<[k |-> k, v |-> IF k \in TextKeys THEN RandomElement(1..NText) ELSE NText + RandomElement(1..NAny)]>> \o Q(T \ {k}, m - 1)
                 IN Q(K, n)
RandomKeys(x) == {k \in TextKeys \cup AnyKeys : Flip(4)}
Fields(N) == LET RECURSIVE Q(_)
                 Q(T) == IF T = {} THEN <<>> ELSE LET n == CHOOSE n \in T : TRUE
                         IN <<[name |-> n, kind |-> RandomElement(Kinds), entries |-> Entries(RandomKeys(1), 3)]>> \o Q(T \ {n})
             IN Q(N)
Shuffle(q) == IF Len(q) > 1 /\ Flip(2) THEN Tail(q) \o <<Head(q)>> ELSE q
Doc(type, name) == [type |-> type, name |-> name, entries |-> Entries(RandomKeys(1), 4),
                    fields |-> IF type = "model" THEN <<>> ELSE Shuffle(Fields({n \in FieldNames : Flip(3)}))]
Root(d) == [at |-> d, form |-> RandomElement(1..3)]
Init == s = [models |-> <<>>, views |-> <<>>, where |-> 0] /\ files = {} /\ ops = <<>> /\ docs = {}
Set == \E a \in Pick(Dirs), b \in Pick(Dirs), c \in Pick(Dirs), two \in Pick(BOOLEAN), w \in Pick(1..4) :
         /\ s' = [models |-> <<Root(a)>>, views |-> IF two THEN <<Root(b), Root(c)>> ELSE <<Root(b)>>, where |-> w]
         /\ UNCHANGED <<files, ops, docs>>
Fresh(type) == LET used == {f.doc.name : f \in {g \in files : g.kind = "doc" /\ g.doc.type = type}} \cup {d[2] : d \in {x \in docs : x[1] = type}} IN Names \ used
Log(o) == ops' = Append(ops, o)
\* a definition somewhere: in a folder that is read, or near one
SomeDirs == Dirs \cup {d \o <<"deep">> : d \in Dirs} \cup {<<"views_old">>, <<"models_old", "deep">>, <<"views", ".hidden">>, <<"views", "venv">>, <<"models", "venv", "lib">>, <<"elsewhere">>}
Hand == /\ Len(ops) >= 0
        /\ \E type \in Pick({"model", "view", "view", "other"}), dir \in Pick(SomeDirs), ext \in Pick({"yml", "yaml", "yml"}), style \in Pick(1..4) :
             IF type = "other"
             THEN \E b \in Pick({"notes", "schema", "orders_view", ".dot"}), x \in Pick({"yml", "md", "txt"}) :
                    LET f == [dir |-> dir, base |-> b, ext |-> x, kind |-> "other", doc |-> [type |-> "", name |-> "", entries |-> <<>>, fields |-> <<>>]]
                    IN IF \E g \in files : Place(g) = Place(f) THEN UNCHANGED vars
                       ELSE files' = files \cup {f} /\ Log([op |-> "hand", style |-> style, file |-> f]) /\ UNCHANGED <<s, docs>>
             ELSE IF Fresh(type) = {} THEN UNCHANGED vars
             ELSE \E n \in Pick(Fresh(type)) :
                    \E f \in {[dir |-> dir, base |-> n \o (IF Flip(2) THEN "_view" ELSE "x"), ext |-> ext, kind |-> "doc", doc |-> Doc(type, n)]} :
                      IF \E g \in files : Place(g) = Place(f) THEN UNCHANGED vars
                      ELSE files' = files \cup {f} /\ docs' = docs \cup {<<type, n>>} /\ Log([op |-> "hand", style |-> style, file |-> f]) /\ UNCHANGED s
\* definitions that come from nowhere
Taken(at) == \E g \in files : Place(g) = at
Dump1 == /\ Len(ops) >= 0
         /\ Fresh("model") # {} /\ Cardinality(Fresh("view")) > 1
         /\ \E m \in Pick(Fresh("model")), v \in Pick(Fresh("view")), n \in Pick(0..1) :
              \E u \in Pick(Fresh("view") \ {v}) :
                \E q \in {SelectSeq(<<Doc("model", m), Doc("view", v), Doc("view", u)>>, LAMBDA d : ~Taken(Home(s, d)))} :
                  /\ files' = WriteAll(files, [k \in 1..Len(q) |-> [at |-> Home(s, q[k]), doc |-> q[k]]])
                  /\ docs' = docs \cup {<<q[k].type, q[k].name>> : k \in 1..Len(q)}
                  /\ Log([op |-> "dump", docs |-> q]) /\ UNCHANGED s
\* all that is loaded is saved where it was
Again == /\ Len(ops) >= 0 /\ files' = files /\ Log([op |-> "again"]) /\ UNCHANGED <<s, docs>>
\* ... or into an empty folder, which is used from then on; the settings go along
Move == /\ Len(ops) >= 0
        /\ files' = {[dir |-> x.at.dir, base |-> x.at.base, ext |-> x.at.ext, kind |-> "doc", doc |-> x.doc] : x \in Loaded(s, files)}
        /\ Log([op |-> "move"]) /\ UNCHANGED <<s, docs>>
\* one definition is changed
Change == /\ Len(ops) >= 0
          /\ Loaded(s, files) # {}
          /\ \E x \in Pick(Loaded(s, files)) :
               \E d \in {[Doc(x.doc.type, x.doc.name) EXCEPT !.fields = IF Flip(2) THEN x.doc.fields ELSE @]} :
                 /\ files' = Write(files, x.at, d)
                 /\ Log([op |-> "change", at |-> x.at, doc |-> d]) /\ UNCHANGED <<s, docs>>
Next == IF Len(ops) >= Length THEN UNCHANGED vars ELSE IF s.where = 0 THEN Set ELSE
        (\E r \in Pick(1..10) : (r <= 3 /\ Hand) \/ (r \in 4..6 /\ Dump1) \/ (r = 7 /\ Again) \/ (r = 8 /\ Move) \/ (r >= 9 /\ Change))
Emit == Len(ops) = Length => PrintT(<<"CASE", ToJson([s |-> s, ops |-> ops])>>)
----------------------------------------------------------------------------
OnePlace == \A f, g \in files : Place(f) = Place(g) => f = g
\* saving everything where it was changes nothing, and moving loses nothing
Settled == s.where > 0 => LET q == Loaded(s, files)
               again == UNION {Write({}, x.at, x.doc) : x \in q} \cup {f \in files : ~\E x \in q : x.at = Place(f)}
           IN again = files /\ Loaded(s, UNION {Write({}, x.at, x.doc) : x \in q}) = q
=============================================================================
