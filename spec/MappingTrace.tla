---------------------------- MODULE MappingTrace ----------------------------
(* What requests by mapping names gave.  obs: [w, q, got: [ok, id], alts: <<[ks, fs, merged, ok, id]>>]: the request itself,*)
(* and the same with the mappings written out, one alternative per substitution (ks: the mappings, fs: their fields).      *)
(* Equal ids: the same columns and rows.                                                                                  *)
EXTENDS Mapping, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
VARIABLES i, verdict
SubOf(w, q, a) == [k \in Used(q) |-> LET j == CHOOSE j \in 1..Len(a.ks) : a.ks[j] = k IN Fld(a.fs[j].v, a.fs[j].f)]
Wrong(o) ==
    LET w == o.w q == o.q
        A == {a \in RangeOf(o.alts) : LET s == SubOf(w, q, a) IN
                (IF Real(q) # {} THEN Fits(w, q, s) ELSE FitsAlone(w, q, s)) /\ (Real(q) # {} => (a.merged <=> Merged(w, q, s)))}
        Good == {a \in A : a.ok}
        \* where an answer is owed: a request of one group of views, or measures of several and mapped fields of their own views;
        \* with nothing but mappings, when they agree on one group and every measure there has a date (if one is asked for)
        Own(s) == /\ Real(q) \subseteq RealOf(q.mets)
                  /\ \A k \in DOMAIN s : LET V == {f.v : f \in RealOf(q.mets)} IN
                        s[k].v \in V /\ (k # DateKey(w) => \A v \in V : \E f \in FieldsOf(w, k) : f.v = v /\ Seen(w, f))
        Dated == DateKey(w) \in Used(q) => \A k \in {it.k : it \in {it \in RangeOf(q.mets) : it.k # 0}} : \A f \in FieldsOf(w, k) : MetDate(w, f) # ""
        Sure == IF Real(q) = {} THEN {a \in Good : Together(w, SubOf(w, q, a)) /\ ~a.merged /\ Dated}
                ELSE {a \in Good : (Cardinality(Comps(w, q)) = 1 /\ \A k \in Used(q) : w.comp[SubOf(w, q, a)[k].v] \in Comps(w, q)) \/ Own(SubOf(w, q, a))}
        All == {<<s, Merged(w, q, s)>> : s \in Acceptable(w, q)}
    IN IF \E x \in All : \A a \in A : SubOf(w, q, a) # x[1] \/ (a.merged # x[2] /\ Real(q) # {}) THEN "CHECK: an alternative was not asked"
       ELSE IF o.got.ok /\ A = {} THEN "answered, although no field of the mapping fits"
       ELSE IF o.got.ok /\ Good = {} THEN "answered, although what it stands for is refused"
       ELSE IF o.got.ok /\ \A a \in Good : a.id # o.got.id THEN "not what the mapped field gives"
       ELSE IF ~o.got.ok /\ Sure # {} THEN "refused, although the mapped field can be asked for"
       ELSE ""
Init == i \in 1..Len(Obs) /\ verdict = "read"
Next == /\ verdict = "read"
        /\ LET v == Wrong(Obs[i]) IN
             IF v = "" THEN verdict' = "accepted" ELSE PrintT(<<"VERDICT", i, v>>) /\ verdict' = "rejected"
        /\ UNCHANGED i
=============================================================================
