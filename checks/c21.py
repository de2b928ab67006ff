"""C21: a set is exactly the fields its definition denotes."""
import contextlib
import io
import random

import check
import tlc
import world


def cased(rng, s):
    return rng.choice([s, s, s, s.upper(), s.title()])


def item(it, rng):
    n = it["name"] if it["kind"] != "field" else cased(rng, it["name"])
    return ("-" if it["neg"] else "") + (f"v{it['view']}." if it["view"] else "") + n + ("" if it["kind"] == "field" else "*")


def observe(w, rng):
    from metrics_layer.core.model.project import Project

    views = []
    drills = [k for k in range(len(w["sets"])) if rng.random() < 0.4]
    for v, x in enumerate(w["views"]):
        fs = []
        for f in x["fields"]:
            d = dict(name=cased(rng, f["name"]), sql="${TABLE}.x")
            d.update(dict(field_type="dimension_group", type="time", timeframes=f["frames"]) if f["group"] else dict(field_type="dimension", type="string", hidden=rng.random() < 0.2))
            if f["denied"]:
                d["required_access_grants"] = ["red"]
            fs.append(d)
        mine = [(k, s) for k, s in enumerate(w["sets"]) if s["view"] == v + 1]
        y = dict(version=1, type="view", name=f"v{v + 1}", model_name="m", sql_table_name="t", fields=fs, identifiers=[],
                 sets=[dict(name=s["name"], fields=[item(i, rng) for i in s["items"]]) for _, s in mine])
        if x["denied"]:
            y["required_access_grants"] = ["red"]
        views.append(y)
    spare = {}
    for k in drills:
        s = w["sets"][k]
        if not w["views"][s["view"] - 1]["denied"] and not any(i["kind"] == "all" for x in w["sets"] for i in x["items"]):
            spare[k] = f"m_{k}"
            views[s["view"] - 1]["fields"].append(dict(name=f"m_{k}", field_type="measure", type="count", drill_fields=[item(i, rng) for i in s["items"]]))
    p = Project(models=[dict(version=1, type="model", name="m", connection="c",
                             access_grants=[dict(name="red", user_attribute="team", allowed_values=["red"])])], views=views)
    world.layer(p, "SNOWFLAKE").set_user({"team": "blue"})
    got = []

    def put(k, way, names):
        got.append(dict(set=k + 1, way=way, found=names is not None,
                        fields=[[int(n.split(".")[0][1:]), n.split(".")[1]] for n in names or []]))

    for k, s in enumerate(w["sets"]):
        first = next(j for j, x in enumerate(w["sets"]) if x["name"] == s["name"])
        x = p.get_set(s["name"], f"v{s['view']}")
        put(k, "by name and view", x and x.field_names())
        if k == first and sum(y["name"] == s["name"] for y in w["sets"]) == 1:
            x = p.get_set(s["name"])
            put(k, "by name", x and x.field_names())
        mine = [x for x in p.sets() if x.name == s["name"] and x.view_name == f"v{s['view']}"]
        put(k, "listed", mine[0].field_names() if len(mine) == 1 else None)
        if k in spare:
            put(k, "drill fields", p.get_field(f"v{s['view']}.m_{k}").drill_fields)
    return got


def q(xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


def body(c):
    c.assumptions += ["sets that refer to themselves are not considered", "a name of a set that does not exist contributes no fields"]
    n = 8000 if c.quick else 40000
    r = tlc.generate("SetsModel", constants=dict(NViews=2, NSets=5, NItems=4, Names=q("abcd"), SetNames=q(["s", "t", "u"]), Frames=q(["date", "week"])),
                     simulate=n, depth=24, seed=c.seed * 13 + 5, invariants=("Emit", "NoTwice", "OrderOfRemovals"))
    if r.violated:
        raise tlc.TLCError("law of Sets: " + r.violated)
    c.tlc("Sets: drawn", r)
    cases = list({str(x): x for x in r.cases}.values())
    rng = random.Random(c.seed)
    with contextlib.redirect_stdout(io.StringIO()):
        got = [observe(w, rng) for w in cases]
    obs = [dict(w=w, got=g) for w, g in zip(cases, got)]
    r = tlc.judge("SetsTrace", obs)
    c.tlc("SetsTrace", r)
    c.traces += len(obs)
    c.count("sets", projects=len(obs), expansions=sum(map(len, got)), empty=sum(not x["fields"] for g in got for x in g))
    for i, v in r.verdicts:
        k, clause = v.split(" ", 1)
        g = got[i][int(k) - 1]
        c.violation(clause, dict(got=g, sets=[(s["view"], s["name"], [item(x, random.Random(0)) for x in s["items"]]) for s in cases[i]["sets"]],
                                 views=cases[i]["views"]), key=clause)
    c.sample(dict(sets=cases[0]["sets"], got=got[0][:2]))


check.main("C21", body)
