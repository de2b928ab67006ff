----------------------------- MODULE Validation -----------------------------
(* A project as its definitions and its references: where a reference may stand, what it has to lead to, and whether it   *)
(* does; and what values the options may take.                                                                            *)
(*                                                                                                                        *)
(* w.models, w.grants, w.dashs : names                                                                                    *)
(* w.views : <<[name, fields : <<[name, kind, frames, pk]>>]>>    kind: dim, met, cum, time                                *)
(* w.sets  : <<[v, name]>>, w.ids : <<[v, name, type]>>   v: the number of the view                                        *)
(* w.refs  : <<[slot, v, i, to : [v, n]]>>  a reference in slot of object i (of view v), to n (of the view named to.v)      *)
(* w.opts  : <<[on, prop, val]>>   options set beyond those (see Options)                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Texts(f) == IF f.kind = "time" THEN {f.name \o "_" \o f.frames[k] : k \in 1..Len(f.frames)} ELSE {f.name}
Viewed(w, n) == {i \in 1..Len(w.views) : w.views[i].name = n}
ByText(w, vs, n) == {<<i, k>> \in UNION {{i} \X (1..Len(w.views[i].fields)) : i \in vs} : n \in Texts(w.views[i].fields[k])}
ByName(w, vs, n) == {<<i, k>> \in UNION {{i} \X (1..Len(w.views[i].fields)) : i \in vs} : n = w.views[i].fields[k].name}
KindOf(w, x) == w.views[x[1]].fields[x[2]].kind
----------------------------------------------------------------------------
\* slots whose bare names mean a field of the view they stand in
Homely == {"sql", "filter", "canon", "drill", "measure", "distinct", "nad", "window", "date", "event", "always", "id sql", "set field", "sql met"}
\* slots that name a date by its base name
Based == {"canon", "date"}
\* what kinds they may lead to
Kinds(slot) == CASE slot \in {"canon", "date", "nad"} -> {"time"} [] slot = "measure" -> {"met"} [] slot = "window" -> {"dim", "time"}
                 [] OTHER -> {"dim", "met", "cum", "time"}
FieldSlots == Homely \cup {"access", "map", "dash metric", "dash slice", "dash filter", "el filter", "join on"}
Home(w, r) == IF r.to.v # "" THEN Viewed(w, r.to.v) ELSE IF r.slot \in Homely THEN {r.v} ELSE 1..Len(w.views)
Targets(w, r) == IF r.slot \in Based THEN ByName(w, Home(w, r), r.to.n) ELSE ByText(w, Home(w, r), r.to.n)
\* a view joined under a second name has its fields (but not its measures) twice: a bare name for one is no name for either
Twice(w, r) == r.to.v = "" /\ r.slot \notin Homely /\ \E x \in Targets(w, r) : KindOf(w, x) \in {"dim", "time"} /\ \E d \in RangeOf(w.ids) : d.type = "as" /\ d.v = x[1]
\* a set's bare name is that of its own view, if it has one of that name
SetNamed(w, r) == {j \in 1..Len(w.sets) : w.sets[j].name = r.to.n}
SetAt(w, r) == LET here == {j \in SetNamed(w, r) : w.sets[j].v = r.v} IN
               IF r.to.v # "" THEN {j \in SetNamed(w, r) : w.views[w.sets[j].v].name = r.to.v} ELSE IF here # {} THEN here ELSE SetNamed(w, r)
Resolves(w, r) ==
    CASE r.slot \in FieldSlots -> ~Twice(w, r) /\ Cardinality(Targets(w, r)) = 1 /\ \A x \in Targets(w, r) : KindOf(w, x) \in Kinds(r.slot)
      [] r.slot \in {"grant view", "grant field"} -> r.to.n \in RangeOf(w.grants)
      [] r.slot \in {"model", "dash model"} -> r.to.n \in RangeOf(w.models)
      [] r.slot = "id view" -> Viewed(w, r.to.n) # {}
      [] r.slot = "id part" -> \E x \in RangeOf(w.ids) : x.v = r.v /\ x.name = r.to.n
      [] r.slot = "set set" -> SetAt(w, r) # {}
\* references must not run in a circle: those of fields' sql, of measures' filters, of sets
Owner(r) == <<r.v, r.i>>
Steps(w, slots) == {<<Owner(r), x>> : r \in {r \in RangeOf(w.refs) : r.slot \in slots}, x \in (1..Len(w.views)) \X (1..8)}
SqlEdges(w) == UNION {{<<Owner(r), x>> : x \in Targets(w, r)} : r \in {r \in RangeOf(w.refs) : r.slot \in {"sql", "sql met", "measure"}}}
SetEdges(w) == UNION {{<<r.i, j>> : j \in SetAt(w, r)} : r \in {r \in RangeOf(w.refs) : r.slot = "set set"}}
Circular(E) == LET nodes == {e[1] : e \in E}
                   RECURSIVE Reach(_, _)
                   Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup {e[2] : e \in {e \in E : e[1] \in S}}, n - 1)
               IN \E x \in nodes : x \in Reach({e[2] : e \in {e \in E : e[1] = x}}, Cardinality(nodes) + 1)
Doubled(s) == Cardinality(RangeOf(s)) # Len(s)
Doubles(w) == \/ Doubled([i \in 1..Len(w.views) |-> w.views[i].name]) \/ Doubled(w.dashs)
              \/ Doubled([i \in 1..Len(w.ids) |-> <<w.ids[i].v, w.ids[i].name>>])
              \/ \E i \in 1..Len(w.views) : \/ Doubled([k \in 1..Len(w.views[i].fields) |-> w.views[i].fields[k].name])
                                            \/ Cardinality({k \in 1..Len(w.views[i].fields) : w.views[i].fields[k].pk}) > 1
----------------------------------------------------------------------------
(* options: [on, prop, ty]; a value is named by its shape, see Values *)
O(on, ty, props) == {[on |-> on, prop |-> p, ty |-> ty] : p \in props}
Options ==
    O("model", "str", {"label", "connection"}) \cup O("model", "int", {"fiscal_month_offset"}) \cup O("model", "weekday", {"week_start_day"})
    \cup O("model", "zone", {"timezone"}) \cup O("model", "bool", {"default_convert_tz"})
    \cup O("mapping", "str", {"group_label", "description", "link"})
    \cup O("grant", "str", {"user_attribute"}) \cup O("grant", "strs", {"allowed_values"})
    \cup O("view", "str", {"label", "description", "row_label", "event_name", "sql_table_name"}) \cup O("view", "bool", {"hidden"})
    \cup O("view", "dict", {"extra"}) \cup O("view", "list", {"fields_for_analysis"})
    \cup UNION {O(f, "str", {"label", "group_label", "description", "zoe_description"}) \cup O(f, "bool", {"hidden"}) \cup O(f, "strs", {"synonyms"})
                \cup O(f, "format", {"value_format_name"}) \cup O(f, "dict", {"extra"}) : f \in {"dim", "time", "met"}}
    \cup O("dim", "bool", {"searchable", "primary_key"}) \cup O("dim", "strs", {"tags"}) \cup O("dim", "str", {"link", "sql"}) \cup O("dim", "dimtype", {"type"})
    \cup O("time", "bool", {"convert_tz", "convert_timezone"}) \cup O("time", "datatype", {"datatype"}) \cup O("time", "frames", {"timeframes"}) \cup O("time", "str", {"sql"})
    \cup O("met", "bool", {"is_merged_result"}) \cup O("met", "mettype", {"type"}) \cup O("met", "str", {"sql"})
    \cup O("cum", "str", {"cumulative_where"}) \cup O("cum", "bool", {"update_where_timeframe"})
    \cup O("nad", "minmax", {"window_choice"}) \cup O("nad", "bool", {"window_aware_of_query_dimensions", "nulls_are_equal"})
    \cup O("id", "str", {"sql"}) \cup O("as id", "str", {"join_as", "join_as_label", "join_as_field_prefix"}) \cup O("as id", "bool", {"include_metrics"})
    \cup O("id", "idtype", {"type"})
    \cup O("join id", "str", {"sql_on"}) \cup O("join id", "jointype", {"join_type"}) \cup O("join id", "relationship", {"relationship"})
    \cup O("model", "dict", {"mappings"}) \cup O("mapping", "list", {"fields"}) \cup O("model", "dicts", {"access_grants"})
    \cup O("view", "dicts", {"sets", "always_filter", "access_filters", "identifiers"}) \cup O("met", "dicts", {"filters"})
    \cup O("view", "strs", {"required_access_grants"}) \cup O("dim", "strs", {"required_access_grants", "drill_fields"})
    \cup O("view", "str", {"default_date", "event_dimension", "model_name"}) \cup O("met", "str", {"canon_date"})
    \cup O("cum", "str", {"measure"}) \cup O("met", "dict", {"non_additive_dimension"}) \cup O("nad", "list", {"window_groupings"})
    \cup O("met", "str", {"sql_distinct_key"}) \cup O("set", "list", {"fields"}) \cup O("access", "str", {"user_attribute"})
\* an option that is no option
    \cup UNION {O(x, "none", {"colour"}) : x \in {"model", "mapping", "grant", "view", "dim", "time", "met", "nad", "id", "join id", "set"}}
\* an option that may not be missing; the value "absent" leaves it out
Needed == {<<"model", "name">>, <<"model", "connection">>, <<"view", "name">>, <<"view", "fields">>, <<"view", "model_name">>, <<"view", "sql_table_name">>,
           <<"dim", "name">>, <<"dim", "field_type">>, <<"dim", "sql">>, <<"time", "timeframes">>, <<"time", "sql">>, <<"met", "sql">>, <<"met", "type">>, <<"dim", "type">>,
           <<"cum", "measure">>, <<"nad", "name">>, <<"nad", "window_choice">>, <<"id", "name">>, <<"id", "type">>, <<"join id", "reference">>, <<"join id", "relationship">>,
           <<"join id", "sql_on">>, <<"set", "name">>, <<"set", "fields">>, <<"grant", "name">>, <<"grant", "user_attribute">>, <<"grant", "allowed_values">>,
           <<"mapping", "fields">>, <<"access", "field">>, <<"access", "user_attribute">>, <<"always", "field">>, <<"always", "value">>, <<"filter", "field">>, <<"filter", "value">>,
           <<"dashboard", "name">>, <<"element", "model">>, <<"dash filter", "field">>, <<"el filter", "field">>}
\* an option whose value is a name of its own
Names == {<<"model", "name">>, <<"view", "name">>, <<"dim", "name">>, <<"time", "name">>, <<"met", "name">>, <<"id", "name">>, <<"set", "name">>, <<"grant", "name">>}
Values == {"text", "number", "yes", "texts", "numbers", "record", "records", "good", "absent", "bad name"}
Allowed(ty, val) ==
    CASE val = "absent" -> FALSE [] val = "good" -> TRUE [] val = "bad name" -> FALSE
      [] ty = "str" -> val = "text" [] ty = "bool" -> val = "yes" [] ty = "int" -> val = "number" [] ty = "strs" -> val = "texts"
      [] ty = "dict" -> val = "record" [] ty = "list" -> val = "texts" [] OTHER -> FALSE
\* the options whose value "text", "texts", "record" .. itself refers to something are only given values of a wrong shape
Refers == {<<"view", "default_date">>, <<"view", "event_dimension">>, <<"view", "model_name">>, <<"met", "canon_date">>, <<"cum", "measure">>, <<"met", "sql_distinct_key">>,
           <<"view", "required_access_grants">>, <<"dim", "required_access_grants">>, <<"dim", "drill_fields">>, <<"set", "fields">>, <<"mapping", "fields">>, <<"nad", "window_groupings">>,
           <<"view", "fields_for_analysis">>, <<"model", "mappings">>, <<"met", "non_additive_dimension">>, <<"id", "sql">>, <<"join id", "sql_on">>,
           <<"as id", "join_as">>, <<"met", "is_merged_result">>, <<"dim", "primary_key">>, <<"model", "connection">>,
           <<"cum", "cumulative_where">>, <<"dim", "sql">>, <<"met", "sql">>, <<"time", "sql">>, <<"grant", "allowed_values">>}
Choices == {[on |-> o.on, prop |-> o.prop, ty |-> o.ty, val |-> v] : o \in Options, v \in {"text", "number", "yes", "texts", "numbers", "record", "records"}}
Usable(c) == ~(<<c.on, c.prop>> \in Refers /\ Allowed(c.ty, c.val)) /\ ~(c.ty = "list" /\ c.val \in {"numbers", "records"}) /\ ~(c.ty = "dicts" /\ c.val = "records")
             /\ ~(c.ty = "int" /\ c.val = "yes")
Missing == {[on |-> n[1], prop |-> n[2], ty |-> "needed", val |-> "absent"] : n \in Needed}
BadNames == {[on |-> n[1], prop |-> n[2], ty |-> "name", val |-> "bad name"] : n \in Names}
OptionChoices == {c \in Choices : Usable(c)} \cup Missing \cup BadNames
BadOption(c) == ~Allowed(c.ty, c.val)
----------------------------------------------------------------------------
Broken(w) == {r \in RangeOf(w.refs) : ~Resolves(w, r)}
Sound(w) == Broken(w) = {} /\ ~Circular(SqlEdges(w)) /\ ~Circular(SetEdges(w)) /\ ~Doubles(w) /\ \A c \in RangeOf(w.opts) : ~BadOption(c)
=============================================================================
