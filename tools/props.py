#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "metrics_layer/core/model/"
S = "metrics_layer/core/sql/"
P = "metrics_layer/core/parse/"

props = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, level_note=None,
         level="model_checking", na=None, hook=None):
    props.append(dict(
        rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                              hook_needed=hook)),
        technique=technique, level=level, level_note=level_note, na=na))


API = "get_sql_query / list_* / get_* of MetricsLayerConnection and Project; SQL executed on a small database"

prop("C01", "Access grants guard every way to reach a field, view or dashboard",
     "A user who does not satisfy every access grant on a view, field or dashboard can neither list it nor fetch it nor "
     "use it anywhere in a query (metric, dimension, filter, ordering, group-by filter, funnel, merged or MQL query, or "
     "through a derived metric that refers to it). A user who satisfies the grants, a user without the grant's attribute, "
     "and a connection without a user can, and the answer follows the current user even after the user is switched.",
     ["inputs", "configurations", "histories"],
     "every assignment of grants to models' views, fields and dashboards, every user, every API entry point, every order of user switches",
     "Tests fix one model and a few users, and mostly probe list_* and metrics/dimensions; combinations of grants on several "
     "objects, the other argument positions and user switches are not reached.",
     [M + "project.py", M + "base.py", M + "view.py", M + "field.py", M + "dashboard.py", S + "resolve.py"],
     [("can_access_field/view/dashboard", M + "project.py")],
     [("user", "attributes of the current user", M + "project.py")], [API])

prop("C02", "Row-level access filters restrict every query and every subquery",
     "For a user with the attribute an access filter names, every query that takes a field from a view with that filter is "
     "computed only from rows of which the filtered field matches the user's value, whatever else the query contains "
     "(structured or literal filters, OR groups, subquery filters, merged, cumulative, funnel, non-additive, MQL). "
     "Several access filters apply together, and users without the attribute are not restricted.",
     ["inputs", "configurations", "programs"],
     "every user value, every combination of filtered views, every query type and filter shape",
     "Tests compare the SQL text of a handful of queries; they never execute it, so an access filter that is present in the "
     "text but neutralised by operator precedence or missing from one CTE passes.",
     [S + "query_design.py", S + "query_generator.py", S + "query_filter.py", S + "query_funnel.py", S + "query_cumulative_metric.py"],
     [("get_access_filter", S + "query_design.py"), ("where assembly", S + "query_generator.py")], (), [API])

prop("C03", "Answers depend only on the current definitions and user, never on history",
     "After any sequence of queries, listings, lookups, validations, failed calls, user switches, timezone switches and field "
     "additions or removals, every call gives the same answer as it would on a freshly built project with the same "
     "definitions, user and timezone.",
     ["histories", "inputs"],
     "every sequence of public operations",
     "Tests use fresh or session-scoped projects with one operation each; caches (views, fields, join graph, memoised lookups) "
     "go stale only after particular multi-step sequences.",
     [M + "project.py", M + "join_graph.py", M + "field.py", M + "view.py", S + "query_generator.py", "metrics_layer/core/query/query.py"],
     [("cache keys", M + "project.py"), ("refresh_cache", M + "project.py")],
     [("join graph", "cached graph of joinable views", M + "project.py"), ("content hash", "identity used as cache key", M + "project.py")],
     [API])

prop("C04", "Requests never modify the caller's arguments or the project's definitions",
     "No query, listing, lookup or validation changes the objects passed to it or the definitions held by the project "
     "(models, views, fields, dashboards). Repeating a request with the same argument objects therefore gives the same answer.",
     ["inputs", "histories"],
     "every request and every argument shape, repeated with the same objects",
     "Tests build fresh argument literals for every call and never look at them, or at the project, afterwards.",
     [S + "resolve.py", S + "query_filter.py", S + "query_generator.py", S + "merged_query_resolve.py", M + "project.py", M + "view.py", M + "field.py"],
     [("copies of arguments and definitions", S + "resolve.py")], (), [API])

prop("C05", "Temporary replacements of definitions are always undone",
     "A temporary replacement of views, models or dashboards (explicitly, or while validating replaced objects) is visible in "
     "full inside its scope and leaves the project, including all its later answers, exactly as before when the scope ends, "
     "whether normally or by an error, and also when scopes are nested.",
     ["histories", "fault_sequences"],
     "every nesting of replacements with queries, edits of other objects and exceptions in between",
     "Tests replace one object and do not raise inside the scope or query before, during and after.",
     [M + "project.py"], [("replace_objects", M + "project.py"), ("validate_with_replaced_objects", M + "project.py")],
     (), [API])

prop("C06", "Every query joins exactly along declared identifiers",
     "The FROM/JOIN structure of a generated query is a tree that contains every view the query needs, in which each join "
     "connects to an already joined view with exactly the condition the two views' identifiers (or an explicit join) declare, and "
     "no join fans out unless the model explicitly allows that pair. A join error is raised exactly when no such tree exists.",
     ["configurations", "inputs"],
     "every small model of views with primary, foreign, composite, aliased and explicit-join identifiers and every set of requested views",
     "Tests use one model whose graph is mostly a star; shapes such as chains, diamonds, composite keys with bridges, aliases and "
     "one-sided fan-outs appear a few times each.",
     [M + "join_graph.py", M + "join.py", S + "query_design.py"],
     [("identifier edges", M + "join_graph.py"), ("determine_join_order", S + "query_design.py")], (), [API])

prop("C07", "What is reported as joinable is what can be queried together",
     "The set of fields or views reported as joinable with a given one is exactly the set that can be combined with it in a "
     "query; it does not depend on the order in which views or identifiers are declared, and a metric's join-graph labels "
     "are shared by exactly the fields it can be queried with.",
     ["configurations"],
     "every small model, every declaration order, every pair of fields",
     "Tests check a few hand-written lists on one model.",
     [M + "join_graph.py", M + "project.py", M + "field.py"],
     [("joinable graphs", M + "join_graph.py"), ("join_graphs of a field", M + "field.py")], (), [API])

prop("C08", "Metric values are not inflated by joins",
     "On warehouses with symmetric-aggregate support, a sum, count, average, distinct, minimum or maximum metric in a query that "
     "joins several views equals the aggregate over the distinct rows of the metric's own view in each group, for every join shape, "
     "and a metric derived from others equals the same arithmetic over those values. Adding further metrics to a query over the "
     "same views never changes the others.",
     ["inputs", "configurations", "programs"],
     "all data (with NULLs and dangling keys), all join shapes including several one-to-many branches, all warehouses, all metric types",
     "Tests compare SQL text, never values, and no test has two one-to-many branches from one view.",
     [S + "query_design.py", M + "field.py", M + "join.py"],
     [("functional primary key", S + "query_design.py"), ("symmetric aggregates", M + "field.py")], (), [API])

prop("C09", "Filters mean what they say",
     "Row filters keep exactly the joined rows for which the condition is true under SQL's three-valued logic, metric filters keep exactly "
     "the groups for which it is true, for every operator and value type and every nesting of AND/OR, on every warehouse. "
     "Filter values given as text in the model's filter language (comparisons, lists, negation, wildcards, NULL, booleans) mean the same.",
     ["inputs", "programs"],
     "all operators x value types x nestings x data with NULLs, mixed case and wildcard characters",
     "Tests check the SQL text of single operators; combinations, precedence and NULL behaviour are never executed.",
     [S + "query_filter.py", M + "filter.py", S + "query_generator.py"],
     [("filter to SQL", M + "filter.py"), ("filter groups", S + "query_filter.py")], (), [API])

prop("C10", "Date expressions select exactly the calendar interval they name",
     "A date expression such as 'last 2 quarters', 'week to date' or '3 months ago for 2 months' selects exactly the interval that the calendar gives "
     "for it on the current day, for every current day, week start day and timezone: intervals start at their first instant, end at "
     "their last, and equal expressions in different phrasing select equal intervals.",
     ["inputs", "configurations"],
     "all expressions x all current days (leap years, month and year ends) x all week starts x timezones",
     "Tests freeze a few dates; month-end clipping, week starts around year ends and timezone days are sampled once or twice.",
     [M + "filter.py"], [("date condition parsing", M + "filter.py")], (), ["filter dictionaries", API])

prop("C11", "Concurrent and failing calls do not disturb date intervals",
     "The interval a date filter selects depends only on its own expression, week start day, timezone and the current day: other requests "
     "running in other threads at the same time, with other week start days, and requests that failed before it, have no influence.",
     ["schedules", "fault_sequences"],
     "every interleaving of two filter computations and every failing computation before another",
     "The tests are single threaded and never continue after an error.",
     [M + "filter.py"], [("week start is process-wide state of the calendar library", M + "filter.py")],
     [("calendar week start", "first day of the week used by the calendar library", "pendulum")], ["filter dictionaries"])

prop("C12", "Time dimensions bucket every instant into the right period",
     "A time dimension in a given timeframe maps every timestamp to the start (or number, or name) of the period that contains it, in the project's "
     "timezone and week start day, on every warehouse; a duration dimension counts the units between its two timestamps.",
     ["inputs", "configurations"],
     "all timestamps around period boundaries x timeframes x week starts x timezones x warehouses",
     "Tests compare text per warehouse and never evaluate it on a boundary instant.",
     [M + "field.py"], [("dimension group SQL", M + "field.py")], (), [API])

prop("C13", "Merged results show every metric's own value, aligned on the shared dimensions",
     "In a merged result, each metric's column holds, for every combination of the shared dimensions, the value that a stand-alone query of that "
     "metric returns there, including combinations that only one side has, and derived metrics compute from these values (nothing "
     "where a side they need is missing). Filters, and dimensions given by any of the merged views' names, apply to each side.",
     ["inputs", "configurations"],
     "all data in which the sides share all, some or none of the dimension values; two or three sides; NULL dimension values",
     "Tests compare text; the values of unmatched or NULL combinations never appear.",
     [S + "merged_query_resolve.py", S + "query_merged_results.py"],
     [("per-date subqueries joined by full outer join", S + "query_merged_results.py")], (), [API])

prop("C14", "Cumulative metrics accumulate exactly their window",
     "For every point of the query's date dimension (the starts of its periods up to today) and every combination of the other dimensions, a cumulative "
     "metric equals the aggregate over all joined rows of that combination that satisfy the query's row filters, whose own date lies in a period "
     "starting no later than that point, and that satisfy the metric's cumulative condition there. Date filters choose which points are shown, never "
     "which rows are accumulated, and other metrics in the query keep their own values. Without a date dimension the accumulation is up to today.",
     ["inputs", "configurations"],
     "all data with gaps, ties at period edges, future rows and NULLs x timeframes x cumulative conditions x filters x combinations of metrics",
     "Tests compare text; nothing is ever accumulated.",
     [S + "query_cumulative_metric.py"], [("date spine join", S + "query_cumulative_metric.py")], (), [API])

prop("C15", "Funnels count entities that passed the steps in order",
     "Step k of a funnel counts (or aggregates) exactly those entities for which rows satisfying steps 1..k exist in strictly increasing "
     "time order, the k-th within the allowed time of the first step; converted / dropped-off filters select exactly the entities that passed, or "
     "failed to pass, between the named steps.",
     ["inputs", "configurations"],
     "all event histories of a few entities x steps x time limits x groupings",
     "Tests compare text; no event data is ever pushed through.",
     [S + "query_funnel.py", S + "query_filter.py"], [("step CTEs", S + "query_funnel.py")], (), [API])

prop("C16", "Non-additive metrics use only the chosen date of each grouping",
     "A metric with a non-additive dimension aggregates, within every group of the query (and window grouping), only the rows at the first or last value "
     "of that dimension there, after the query's own filters; other metrics in the same query are unaffected.",
     ["inputs", "configurations"],
     "all data with ties, NULLs and several groups x window choices, groupings and options",
     "Tests compare text only, and run each query once on a fresh project.",
     [S + "query_generator.py", M + "field.py"], [("non additive CTE", S + "query_generator.py")], (), [API])

prop("C17", "A query returns exactly the requested columns, rows, order and limit",
     "For every warehouse, the generated statement returns one column per requested dimension and metric, in the requested order under "
     "its fixed alias, one row per group (or per row when the primary key is selected), sorted as requested with NULLs last where an order is "
     "given and supported, and at most the requested number of rows.",
     ["inputs", "configurations"],
     "all argument combinations x warehouses",
     "Tests cover each warehouse with few argument combinations and never execute.",
     [S + "query_generator.py", S + "query_dialect.py", S + "single_query_resolve.py"],
     [("query assembly per dialect", S + "query_generator.py")], (), [API])

prop("C18", "MQL text and structured arguments ask the same question",
     "An MQL statement returns exactly the data of the query given by the corresponding structured arguments, for metrics, dimensions, filters, "
     "metric filters, ordering, limits and combinations with other SQL around it.",
     ["inputs", "programs"],
     "all combinations of clauses, spacing, letter case and nesting",
     "Tests cover hand-written statements with few clauses at a time.",
     ["metrics_layer/core/convert/convert.py", "metrics_layer/core/query/query.py"],
     [("MQL conversion", "metrics_layer/core/convert/convert.py")], (), [API])

prop("C19", "Mapped dimensions resolve to the field of the queried view",
     "A dimension, metric, filter or order given by a mapping's name (in whatever letter case) behaves exactly like the first field the mapping lists that the "
     "user may see and that can be joined to the request's other fields, the same field everywhere in the request; a generic date (date, week, ...) is the date "
     "of the request's metrics; a mapping no field of which fits is an error, not a different field.",
     ["inputs", "configurations"],
     "all mappings x metrics x argument positions",
     "Tests use one mapping or two.",
     [S + "resolve.py", M + "model.py"], [("mapping resolution", S + "resolve.py")], (), [API])

prop("C20", "Validation accepts sound projects and reports every broken reference",
     "Validating a project reports at least one error for every reference (field, view, model, set, grant, filter, identifier, dashboard element) that does not "
     "resolve and for every invalid option, raises no exception, and reports nothing on a project in which everything resolves.",
     ["configurations", "inputs"],
     "all single and double breakages of valid projects",
     "Tests check listed error texts for one mutation at a time of one project.",
     [M + "project.py", M + "view.py", M + "field.py", M + "model.py", M + "dashboard.py", M + "set.py"],
     [("validate", M + "project.py")], (), ["Project.validate()"])

prop("C21", "Sets expand to exactly the fields their definition denotes",
     "A set expands to the fields it lists: names, wildcards, other sets and nested negations, evaluated as set algebra over the view's "
     "fields, whatever the letter case of the names; the drill fields of a metric that use a set are exactly that list.",
     ["configurations"],
     "all small set expressions, nested through other sets and views",
     "Tests cover a few expressions.",
     [M + "set.py", M + "view.py"], [("set expansion", M + "set.py")], (), ["get_set, fields, drill_fields"])

prop("C22", "Dumping a project and loading it again loses nothing",
     "Writing a project to files and loading it again gives a project with the same definitions and the same answers, "
     "and dumping never touches files of the target folder that do not belong to the project.",
     ["configurations", "histories"],
     "all small projects, written over empty and over previously used folders",
     "Tests round-trip one project.",
     [P + "project_dumper.py", P + "project_loader.py", P + "project_reader_metrics_layer.py"],
     [("dump", P + "project_dumper.py"), ("load", P + "project_loader.py")], (), ["files written; Project loaded"])

prop("C23", "Arbitrary merged queries equal the join of their stand-alone queries",
     "A merged query over several independent queries returns the outer join (as requested) of what the stand-alone queries return, on the given join fields, "
     "with the requested filters, ordering and limit applied to the merged columns.",
     ["inputs", "programs"],
     "all small lists of queries, join types, join fields, filters",
     "Tests compare text for a few merges.",
     [S + "arbitrary_merge_resolve.py", S + "query_arbitrary_merged_queries.py"],
     [("merged CTEs", S + "query_arbitrary_merged_queries.py")], (), [API])

prop("C24", "Temporary files, credentials and connections are released on every path",
     "Whatever step fails while a project is loaded from a repository or a query is run, every temporary folder, "
     "key file and database connection that was opened has been removed or closed when the call returns or raises, and nothing else is deleted.",
     ["fault_sequences", "crash_points"],
     "every position at which an operation can fail x every kind of repository and connection",
     "Tests mock the happy path.",
     [P + "github_repo.py", P + "project_loader.py", S + "query_runner.py"],
     [("delete / finally", P + "project_loader.py")], (), ["recorded calls of stand-ins for git, files and database drivers"])

prop("C25", "The same request gives the same SQL in every process",
     "For the same definitions, user and request, the generated SQL text (and every list the API returns) is identical in every process, whatever the hash "
     "seed, and does not depend on the order in which unrelated definitions are loaded.",
     ["configurations", "inputs"],
     "all requests x hash seeds x load orders",
     "The tests run with one hash seed.",
     [S + "query_design.py", M + "project.py", M + "join_graph.py", M + "view.py"],
     [("sorted iteration", S + "query_design.py")], (), ["SQL text in processes with different PYTHONHASHSEED"])

prop("C26", "Field names resolve to exactly one field, or fail",
     "A field reference resolves, whatever its letter case, to the one field it denotes: view-qualified names to that view's field, bare names only when they are unique "
     "among the views the user can see (a tie between fields is an error, never an arbitrary pick), dimension-group names only with a declared timeframe.",
     ["configurations", "inputs"],
     "all small models with clashing names x all references",
     "Tests use a model with few clashes.",
     [M + "project.py", M + "view.py"], [("get_field", M + "project.py")], (), ["get_field / queries"])

BUILT = {}
bp = os.path.join(ROOT, "tools", "built.json")
if os.path.exists(bp):
    BUILT = json.load(open(bp))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p["rec"]) + "\n")
    checks, na = [], []
    for p in props:
        i = p["rec"]["id"]
        b = BUILT.get(i)
        if b:
            checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": b["technique"],
                           "level": b.get("level", "model_checking"), "level_note": b["note"]})
        else:
            na.append({"property": i, "reason": p["na"] or "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "TLA+ specifications in spec/ checked and evaluated by TLC; every check runs against /repo's working tree. "
                  "No hooks in /repo are needed."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in props:
            jsonschema.validate(p["rec"], sch)
    except ImportError:
        pass
    for p in props:
        st = p["rec"]["statement"]
        if len(p["rec"]["title"]) > 80:
            print("title too long", p["rec"]["id"])
    print(len(props), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
