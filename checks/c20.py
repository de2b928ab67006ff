"""C20: validate() reports every broken reference and bad option, and nothing else."""
import copy
import traceback

import check
import hist
import tlc

VALUES = {"text": "nice text", "number": 5, "yes": True, "texts": ["aa", "bb"], "numbers": [1, 2], "record": {"aa": "bb"}, "records": [{"aa": "bb"}],
          "bad name": "no good!"}


def text(r):
    return f"{r['to']['v']}.{r['to']['n']}" if r["to"]["v"] else r["to"]["n"]


def write(w):
    """the project as its definitions, and where the options go"""
    def refs(slot, v=None, i=None):
        return [text(r) for r in w["refs"] if r["slot"] == slot and v in (None, r["v"]) and i in (None, r["i"])]

    def one(slot, v, i=0):
        return next(iter(refs(slot, v, i)), None)

    maps = {}
    for i, name in ((1, "tier"), (2, "count_x")):
        if refs("map", 1, i):
            maps[name] = dict(fields=refs("map", 1, i))
    models = [dict(type="model", name=n, connection="conn") for n in w["models"]]
    if maps:
        models[0]["mappings"] = maps
    if w["grants"]:
        models[0]["access_grants"] = [dict(name=n, user_attribute="team", allowed_values=["x", "y"]) for n in w["grants"]]
    places = dict(model=models[0])
    if maps:
        places["mapping"] = next(iter(maps.values()))
    places["grant"] = models[0]["access_grants"][0]
    views, fields = [], {}
    for v, vw in enumerate(w["views"], 1):
        d = dict(type="view", name=vw["name"], sql_table_name=f"s.t{v}", fields=[])
        for slot, key in (("model", "model_name"), ("date", "default_date"), ("event", "event_dimension")):
            if one(slot, v):
                d[key] = one(slot, v)
        if refs("always", v, 0):
            d["always_filter"] = [dict(field=x, value="a") for x in refs("always", v, 0)]
            places.setdefault("always", d["always_filter"][0])
        if refs("access", v, 0):
            d["access_filters"] = [dict(field=x, user_attribute="dept") for x in refs("access", v, 0)]
            places.setdefault("access", d["access_filters"][0])
        if refs("grant view", v, 0):
            d["required_access_grants"] = refs("grant view", v, 0)
        ids = []
        for i, x in enumerate(w["ids"], 1):
            if x["v"] != v:
                continue
            y = dict(name=x["name"], type=x["type"])
            if x["type"] == "composite":
                y.update(type="primary", identifiers=[dict(name=n) for n in refs("id part", v, i)])
            elif x["type"] == "join":
                a = refs("join on", v, i)
                y.update(reference=one("id view", v, i), relationship="many_to_one", sql_on="=".join("${%s}" % n for n in a))
                places["join id"] = y
            else:
                y["sql"] = "${%s}" % one("id sql", v, i)
                if x["type"] == "as":
                    y.update(type="primary", join_as="buyers")
                    places["as id"] = y
                if i == 2:
                    places["id"] = y
            ids.append(y)
        d["identifiers"] = ids
        sets = []
        for i, s in enumerate(w["sets"], 1):
            if s["v"] == v:
                fs = refs("set field", v, i) + [x + "*" for x in refs("set set", v, i)]
                sets.append(dict(name=s["name"], fields=fs))
                if i == 1:
                    places["set"] = sets[-1]
        if sets:
            d["sets"] = sets
        for k, f in enumerate(vw["fields"], 1):
            y = dict(name=f["name"])
            if f["kind"] == "dim":
                y.update(field_type="dimension", type="number" if f["pk"] else "string", sql="${TABLE}.c%d" % k)
                if f["pk"]:
                    y["primary_key"] = True
                    y["hidden"] = True
                else:
                    y["searchable"] = False
                if refs("sql", v, k):
                    y["sql"] = "concat(" + ", ".join("${%s}" % n for n in refs("sql", v, k)) + ", 'x')"
                if refs("drill", v, k):
                    y["tags"] = ["some"]
                    y["drill_fields"] = refs("drill", v, k)
            elif f["kind"] == "time":
                y.update(field_type="dimension_group", type="time", timeframes=f["frames"], sql="${TABLE}.c%d" % k)
            else:
                y.update(field_type="measure", type="sum", sql="${TABLE}.c%d" % k)
                s = refs("sql met", v, k)
                if len(s) > 1:
                    y.update(type="number", sql=" / ".join("${%s}" % n for n in s))
                elif s:
                    y["sql"] = "${%s}" % s[0]
                if refs("filter", v, k):
                    y["filters"] = [dict(field=n, value="a") for n in refs("filter", v, k)]
                    places.setdefault("filter", y["filters"][0])
                if one("canon", v, k):
                    y["canon_date"] = one("canon", v, k)
                if f["kind"] == "cum":
                    y.pop("sql")
                    y.update(type="cumulative", measure=one("measure", v, k))
                    places["cum"] = y
                if refs("distinct", v, k):
                    y.update(type="sum_distinct", sql_distinct_key="${%s}" % one("distinct", v, k))
                if refs("nad", v, k):
                    y["non_additive_dimension"] = places["nad"] = dict(name=one("nad", v, k), window_choice="max")
                    if refs("window", v, k):
                        y["non_additive_dimension"]["window_groupings"] = refs("window", v, k)
            if refs("grant field", v, k):
                y["required_access_grants"] = refs("grant field", v, k)
            fields[v, k] = y
            d["fields"].append(y)
        views.append(d)
    places.update(view=views[0], dim=fields[1, 2], time=fields[1, 6], met=fields[1, 7])
    dashs = []
    for b, n in enumerate(w["dashs"], 1):
        e = dict(title="one", type="plotly", metrics=refs("dash metric", b, 0))
        if one("dash model", b):
            e["model"] = one("dash model", b)
        if refs("dash slice", b, 0):
            e["slice_by"] = refs("dash slice", b, 0)
        if refs("el filter", b, 0):
            e["filters"] = [dict(field=x, value="a") for x in refs("el filter", b, 0)]
            places.setdefault("el filter", e["filters"][0])
        d = dict(type="dashboard", name=n, label="Board", layout="grid", elements=[e])
        if refs("dash filter", b, 0):
            d["filters"] = [dict(field=x, value="a") for x in refs("dash filter", b, 0)]
            places.setdefault("dash filter", d["filters"][0])
        dashs.append(d)
    places.update(dashboard=dashs[0], element=dashs[0]["elements"][0])
    idle = False
    for o in w["opts"]:
        at = places.get(o["on"])
        if at is None:
            idle = True
        elif o["val"] == "absent":
            at.pop(o["prop"], None)
        else:
            at[o["prop"]] = copy.deepcopy(VALUES[o["val"]])
    return models, views, dashs, idle


def run(w):
    from metrics_layer.core.model.project import Project

    models, views, dashs, idle = write(w)
    shown = dict(models=copy.deepcopy(models), views=copy.deepcopy(views), dashboards=copy.deepcopy(dashs))
    try:
        found = Project(models=models, views=views, dashboards=dashs).validate()
        return dict(w=w, n=len(found), raised=False, said=[e["message"] for e in found], shown=shown, idle=idle)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        return dict(w=w, n=0, raised=True, said=[f"{type(e).__name__}: {e}"[:300] + f" in {tb[-1].name}"], shown=shown, idle=idle)


def named(o):
    """the names that lead nowhere, and those mentioned"""
    strays = sorted({x for r in o["w"]["refs"] for x in (r["to"]["v"], r["to"]["n"]) if x.startswith("nope_")})
    return dict(strays=strays, named=[x for x in strays if any(x in m for m in o["said"])])


def many(ws):
    return [run(w) for w in ws]


def what(o):
    """what is broken, as the identity of a finding"""
    w = o["w"]
    opts = ",".join(f"{x['on']}.{x['prop']}={x['val']}" for x in w["opts"])
    return opts


def body(c):
    ws = []
    for init in ("OptInit", "RefInit"):
        r = tlc.generate("ValidationModel", init=init, nxt="Stop", invariants=("Emit", "BaseSound", "AstrayBroken"))
        if r.violated:
            raise tlc.TLCError("law of Validation: " + r.violated)
        c.tlc("Validation: " + init, r)
        ws += [(init, x["w"]) for x in r.cases]
    r = tlc.generate("ValidationModel", simulate=1000 if c.quick else 12000, depth=12, seed=c.seed * 11 + 5, invariants=("Emit", "BaseSound", "AstrayBroken"))
    if r.violated:
        raise tlc.TLCError("law of Validation: " + r.violated)
    c.tlc("Validation: drawn", r)
    seen = set()
    for x in r.cases:
        k = repr(x["w"])
        if k not in seen:
            seen.add(k)
            ws.append(("drawn", x["w"]))
    n = 8
    res = hist.fan_out([(many, ([w for _, w in ws[i::n]],)) for i in range(n)])
    obs = [None] * len(ws)
    for i, rr in enumerate(res):
        obs[i::n] = rr
    live = [o for o in obs if not o["idle"]]
    r = tlc.judge("ValidationTrace", [dict(w=o["w"], n=o["n"], raised=o["raised"], **named(o)) for o in live])
    c.tlc("ValidationTrace", r)
    c.traces += len(live)
    c.count("projects", options=sum(k == "OptInit" for k, _ in ws), references=sum(k == "RefInit" for k, _ in ws), drawn=sum(k == "drawn" for k, _ in ws),
            reported=sum(o["n"] > 0 for o in live))
    for i, v in r.verdicts:
        o = live[i]
        c.violation(v, dict(w=o["w"], said=o["said"], project=o["shown"]), key=f"{v}: {what(o)}")
    c.sample(dict(w=live[0]["w"], said=live[0]["said"]))


check.main("C20", body)
