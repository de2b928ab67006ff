"""One process: the projects and requests of a file, loaded in one way, answered.  usage: same_worker.py CASES LOAD FOLDER OUT"""
import copy
import hashlib
import json
import os
import random
import re
import sys

import hist
import world

NAMES = ["orders", "clients", "visits", "items", "shops", "plans"]


def build(p):
    n = len(p["views"])
    nm = NAMES[:n]
    views = []
    for i, v in enumerate(p["views"]):
        me, nx = nm[i], nm[(i + 1) % n]
        F = [dict(name="kk", field_type="dimension", type="string", sql="${TABLE}.kk", primary_key=True, tags=["customer"] if v["link"] else []),
             dict(name="aa", field_type="dimension", type="string", sql="${TABLE}.aa", searchable=True, drill_fields=["bb", "cc", "kk"]),
             dict(name="bb", field_type="dimension", type="string", sql="${TABLE}.bb", searchable=True),
             dict(name="num", field_type="dimension", type="number", sql="${TABLE}.num"),
             dict(name="cc", field_type="dimension", type="string", sql="case when ${aa} = 'x' then ${bb} when ${num} > 3 then ${aa} else 'no' end", searchable=True),
             dict(name="dd", field_type="dimension", type="string", sql={1: "concat(${cc}, ${bb}, ${num})", 2: f"${{{nx}.aa}} || ${{bb}}", 3: "${TABLE}.dd", 4: "${cc} || ${TABLE}.dd"}[v["style"]],
                  searchable=True)]
        if v["grant"]:
            F[2]["required_access_grants"] = ["reds"]
        for k, on in (("at", v["date"]), ("seen", v["second"])):
            if on:
                F.append(dict(name=k, field_type="dimension_group", type="time", timeframes=["raw", "date", "week", "month"], sql="${TABLE}." + k))
        two = dict(canon_date="seen") if v["second"] else {}
        F += [dict(name="total", field_type="measure", type="sum", sql="${num}"), dict(name="cnt", field_type="measure", type="count", sql="${kk}"),
              dict(name="filt", field_type="measure", type="sum", sql="${num}", filters=[dict(field="aa", value="x"), dict(field="cc", value="-y"), dict(field="bb", value="x, z")]),
              dict(name="avg", field_type="measure", type="average", sql="case when ${aa} = 'x' then ${num} end"),
              dict(name="ratio", field_type="measure", type="number", sql="${total} / nullif(${cnt} + ${filt} + ${late}, 0)"),
              dict(name="late", field_type="measure", type="sum", sql="${num}", **two),
              dict(name="both", field_type="measure", type="number", sql=f"${{total}} / nullif(${{{nm[v['merged'] % n]}.late}} + ${{{nx}.cnt}}, 0)", is_merged_result=True)]
        if v["date"]:
            F.append(dict(name="running", field_type="measure", type="cumulative", measure="total"))
            F.append(dict(name="ends", field_type="measure", type="sum", sql="${num}", non_additive_dimension=dict(
                name="at_raw", window_choice="max", window_groupings=["aa", "bb"])))
        ids = [dict(name=f"key_{me}", type="primary", sql="${kk}")]
        for j in p["joins"]:
            a, b = nm[j["a"] - 1], nm[j["b"] - 1]
            if a == me and j["kind"] in ("key", "both"):
                F.append(dict(name=f"fk_{b}", field_type="dimension", type="string", sql="${TABLE}.fk_" + b, hidden=True))
                ids.append(dict(name=f"key_{b}", type="foreign", sql=f"${{fk_{b}}}"))
            if j["kind"] == "one" and me in (a, b):
                ids.append(dict(name=f"pair_{a}_{b}", type="primary", sql="${kk}"))
            if a == me and j["kind"] in ("on", "both"):
                ids.append(dict(name=f"join_{b}", type="join", relationship="many_to_one", reference=b, join_type="left_outer", sql_on=f"${{{a}.aa}} = ${{{b}.aa}} and ${{{a}.num}} > ${{{b}.num}}"))
        view = dict(version=1, type="view", name=me, model_name="m", sql_table_name=f"db.{me}", identifiers=ids, fields=F)
        if v["date"] or v["second"]:
            view["default_date"] = "at" if v["date"] else "seen"
        if v["filters"]:
            view["access_filters"] = [dict(field=f"{me}.aa", user_attribute="team"), dict(field=f"{nx}.bb", user_attribute="area")][:v["filters"]]
        if v["sets"]:
            view["sets"] = [dict(name="some", fields=["aa", "bb", "num"]), dict(name="more", fields=["some*", "-bb", "cc", "dd"])]
        if v["always"]:
            view["always_filter"] = [dict(field="aa", value="-none")]
        views.append(view)
    maps = {}
    for name, f in (("chan", "aa"), ("place", "bb")):
        fs = [f"{nm[i]}.{f}" for i, v in enumerate(p["views"]) if v["mapped"]]
        if len(fs) > 1:
            maps[name] = dict(fields=fs, group_by=fs[0].split(".")[0])
    model = dict(version=1, type="model", name="m", connection="c", access_grants=[dict(name="reds", user_attribute="team", allowed_values=["red"])], mappings=maps)
    dash = dict(version=1, type="dashboard", name="d", layout="grid", label="D", filters=[], elements=[dict(title="t", type="plot", model="m", metrics=[f"{nm[0]}.total"], slice_by=[f"{nm[0]}.aa"])])
    return [model], views, [dash]


def name(p, r):
    return r["f"] if r["v"] == 0 else f"{NAMES[r['v'] - 1]}.{r['f']}"


FORMS = {1: ("equal_to", "x"), 2: ("isin", ["x", "y", "z"]), 3: ("is_not_null", None), 4: ("not_equal_to", "y"), 5: ("contains", "q"),
         6: ("isnotin", ["p", "q"]), 7: ("greater_than", 2), 8: ("starts_with", "w")}


def cond(p, c):
    e, v = FORMS[c["form"]]
    if "at_" in c["ref"]["f"] or "seen_" in c["ref"]["f"] or c["ref"]["f"] in ("date", "week"):
        e, v = ("greater_or_equal_than", "2024-01-01") if c["form"] % 2 else ("less_than", "2024-05-01")
    return dict(field=name(p, c["ref"]), expression=e, value=v)


def args(p, r):
    m = [name(p, x) for x in r["metrics"]]
    d = [name(p, x) for x in r["dims"]]
    w = [cond(p, c) for c in r["where"]]
    out = dict(metrics=m, dimensions=d, where=w)
    if r["having"] and m:
        out["having"] = [dict(field=m[0], expression="greater_than", value=1)]
    if r["order"] and m + d:
        out["order_by"] = [dict(field=x, sort="asc" if k else "desc") for k, x in enumerate((m + d)[:r["order"]])]
    if r["limit"]:
        out["limit"] = 7
    if r["form"] == "nested" and len(w) > 1:
        out["where"] = [dict(conditional="or", conditions=[w[0], dict(conditional="and", conditions=w[1:])])]
    if r["form"] == "funnel" and m:
        steps = [[cond(p, c)] for c in r["where"]] or [[dict(field=m[0].split(".")[0] + ".aa", expression="equal_to", value="x")]]
        steps.append([dict(field=m[0].split(".")[0] + ".bb", expression="equal_to", value="y"), dict(field=m[0].split(".")[0] + ".num", expression="greater_than", value=1)])
        out = dict(metrics=m[:1], dimensions=d, where=[], funnel=dict(steps=steps, within=dict(value=3, unit="days"), view_name=m[0].split(".")[0]))
    if r["form"] == "among" and m and "." in (d or [""])[0]:
        out["where"] = w + [dict(field=m[0], group_by=d[0], expression="greater_than", value=2)]
    if r["form"] == "queries" and len(m) > 1 and d:
        out = dict(merged_queries=[dict(metrics=[m[0]], dimensions=d[:1], where=w), dict(metrics=[m[1]], dimensions=d[:1], join_fields=[dict(field=d[0], source_field=d[0])])])
    if r["form"] == "mql" and m:
        out = dict(sql=f"SELECT * FROM MQL({', '.join(m)}" + (f" BY {', '.join(d)}" if d else "") + (f" WHERE {w[0]['field']} = 'x'" if w else "") + ") as q")
    return out


def bag(x):
    if isinstance(x, (list, tuple)):
        return sorted(str(bag(y)) for y in x)
    if isinstance(x, dict):
        return sorted(f"{k}={bag(v)}" for k, v in x.items())
    return str(x)


def h(x):
    return hashlib.md5(str(x).encode()).hexdigest()[:12]


LISTS = [hist.C("list_fields"), hist.C("list_metrics"), hist.C("list_dimensions", names_only=True), hist.C("list_views", names_only=True), hist.C("sets"), hist.C("tag", "customer"),
         hist.C("graph"), hist.C("list_dashboards"), hist.C("list_models"), hist.C("mapped", "chan")]
USERS = [None, {"team": "red", "area": "n, s"}, {"team": "blue"}]


def answer(live, p, r):
    reqs = []
    if r["form"] == "lists":
        reqs = LISTS + [hist.C("labels", f"{NAMES[k]}.{f}") for k in range(len(p["views"])) for f in ("total", "dd", "both")]
    elif r["form"] == "validate":
        reqs = [hist.C("validate")]
    elif r["form"] == "joinable":
        reqs = [hist.C("joinable_fields", *[name(p, x) for x in (r["metrics"] + r["dims"])[:2] if x["v"]])] + [hist.C("project.get_joinable_views", NAMES[k]) for k in range(len(p["views"]))]
    else:
        reqs = [dict(kind="mql" if r["form"] == "mql" else "sql", args=args(p, r))]
    out = []
    for q in reqs:
        a = hist.ask(live.conn, live.project, q, copy.deepcopy(q["args"]))
        if not a.startswith("ok "):
            words = sorted(re.findall(r"\w+", a))
            out.append(("refused", a, "" if q["kind"] == "validate" else h(words)))
        elif q["kind"] in ("sql", "mql"):
            out.append(("sql", a, ""))
        else:
            words = sorted(re.findall(r"\w+|[^\w\s,]", a))
            out.append(("list", a, h(words)))
    return out


def main(cases, load, folder, out):
    from metrics_layer.core.model.project import Project
    from metrics_layer.core.parse import ProjectLoader

    with open(cases) as f:
        cases = json.load(f)
    got = []
    for k, c in enumerate(cases):
        models, views, dashboards = build(c["p"])
        for_all = []
        for r in c["reqs"]:
            if load == "files":
                if not os.path.isdir(os.path.join(folder, str(k))):
                    break
                project = ProjectLoader(os.path.join(folder, str(k)), connections=[]).load()
            else:
                m, v, d = copy.deepcopy((models, views, dashboards))
                if int(load):
                    random.Random(int(load) * 1000 + k).shuffle(v)
                project = Project(models=m, views=v, dashboards=d)
            if r["form"] == "validate" and r["limit"]:
                one = next(v for v in project._views if v["name"] == NAMES[0])
                one["fields"] = one["fields"] + copy.deepcopy([f for f in one["fields"] if f["name"] in ("dd", "avg", "both")])
            live = hist.Live.__new__(hist.Live)
            live.project = project
            live.conn = world.layer(project, ["SNOWFLAKE", "BIGQUERY", "POSTGRES", "REDSHIFT"][r["dialect"] - 1])
            if USERS[r["user"]] is not None:
                live.conn.set_user(copy.deepcopy(USERS[r["user"]]))
            for_all.append(answer(live, c["p"], r))
        got.append(for_all)
    with open(out, "w") as f:
        json.dump(got, f)


if __name__ == "__main__":
    sys.stdout = open(os.devnull, "w")
    main(*sys.argv[1:5])
