----------------------------- MODULE GrantsModel -----------------------------
(* Placements of grants and sequences of users: drawn for the code (Draw), and all of them up to a bound (laws).          *)
EXTENDS Grants
CONSTANTS NViews, NFields, NBoards, Values, Attrs, NUsers, MaxPut, Who
VARIABLES place, users, goal
vars == <<place, users, goal>>
\* objects: 1..NViews the views, then the fields, then the dashboards
NObj == NViews + NFields + NBoards
G == << [attr |-> "team", allowed |-> <<"red">>], [attr |-> "team", allowed |-> <<"red", "blue">>],
        [attr |-> "region", allowed |-> <<"west", "east">>], [attr |-> "level", allowed |-> <<"gold">>] >>
Nobody == [none |-> TRUE, attrs |-> <<>>]
User(f) == [none |-> FALSE, attrs |-> LET S == {a \in DOMAIN f : f[a] # ""}
                                          RECURSIVE Q(_)
                                          Q(T) == IF T = {} THEN <<>> ELSE LET a == CHOOSE a \in T : TRUE IN <<[attr |-> a, value |-> f[a]]>> \o Q(T \ {a})
                                      IN Q(S)]
Pick(S) == {RandomElement(S)}
Init == place = [o \in 1..NObj |-> {}] /\ users = <<>> /\ goal \in 1..MaxPut
Put == /\ Cardinality({o \in 1..NObj : place[o] # {}}) < goal
       \* views and dashboards as often as fields
       /\ \E r \in Pick(1..10) : \E o \in Pick(IF r = 1 THEN 1..NViews ELSE IF r = 2 THEN (NViews + NFields + 1)..NObj ELSE (NViews + 1)..(NViews + NFields)) :
            \E g \in Pick(1..4) : place' = [place EXCEPT ![o] = @ \cup {g}]
       /\ UNCHANGED <<users, goal>>
Switch == /\ Cardinality({o \in 1..NObj : place[o] # {}}) >= goal /\ Len(users) < NUsers
          /\ \E r \in Pick(1..8) :
               IF r = 1 THEN users' = Append(users, Nobody)
               ELSE IF r = 2 /\ users # <<>> THEN \E k \in Pick(1..Len(users)) : users' = Append(users, users[k])
               ELSE \E a \in Pick(Values), b \in Pick(Values), c \in Pick(Values), d \in Pick(Values) :
                      users' = Append(users, User([team |-> a, region |-> b, level |-> c, Team |-> d]))
          /\ UNCHANGED <<place, goal>>
Next == Put \/ Switch
Emit == Len(users) = NUsers => PrintT(<<"CASE", ToJson([place |-> place, users |-> users])>>)
----------------------------------------------------------------------------
\* laws, over all placements on three objects (a view, its field, a field referring to it) and all users
World(p) == [grants |-> G, views |-> <<[req |-> p[1]]>>, boards |-> <<>>,
             fields |-> <<[view |-> 1, req |-> p[2], refs |-> <<>>], [view |-> 1, req |-> p[3], refs |-> <<1>>]>>]
Subs == {<<>>, <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 3>>}
AllUsers == {Nobody} \cup {User([team |-> a, region |-> b]) : a \in {"", "red", "blue", "x"}, b \in {"", "west", "x"}}
InitLaw == place \in [1..3 -> Subs] /\ users \in {<<u>> : u \in AllUsers} /\ goal = 0
NextLaw == goal = 0 /\ goal' = 1 /\ UNCHANGED <<place, users>>
W == World(place)
U == users[1]
NoUserReachesAll == U.none => Fields(W, U) = 1..2 /\ Views(W, U) = {1}
GuardedViewHidesItsFields == 1 \notin Views(W, U) => Fields(W, U) = {}
ReferringNeedsReferred == Usable(W, U, {2}) => 1 \in Fields(W, U)
\* a further grant never opens anything
MoreGrantsFewerFields == \A o \in 1..3, g \in 1..3 :
    Fields(World([place EXCEPT ![o] = Append(@, g)]), U) \subseteq Fields(W, U)
=============================================================================
