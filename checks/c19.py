"""C19: a mapping's name stands for the field of the views the request is about."""
import random

import check
import hist
import qgen
import tlc
import world
from world import View, World

LINK = {(1, 1, 2, 3): [(1, 2)], (1, 1, 2, 2): [(1, 2), (3, 4)], (1, 2, 3, 4): [], (1, 1, 1, 2): [(1, 2), (2, 3)]}
NAMES = [("region", "kind", "zone_x"), ("z", "channel", "account_type"), ("day_part", "a", "tier"), ("state", "v1", "m2")]
FRAMES = ["date", "week", "month", "quarter", "year", "month_of_year", "week_of_year", "day_of_year"]
TS = ["2024-01-01T00:00:00", "2024-01-02T10:00:00", "2024-01-09T00:00:00", "2024-02-03T04:05:06", "2024-04-01T00:00:00", "2025-01-01T08:00:00"]
AGG = {"m": "sum", "n": "max", "o": "count"}


def build(w, names, rng):
    vs = []
    denied = {(f["v"], f["f"]) for f in w["denied"]}
    gate = lambda i, f: {"required_access_grants": ["red"]} if (i, f) in denied else {}  # noqa: E731
    for i, (comp, date, mets) in enumerate(zip(w["comp"], w["date"], w["mets"]), 1):
        ids = [dict(name=f"k{i}", type="primary", sql="${id}")]
        links = [b for a, b in LINK[tuple(w["comp"])] if a == i]
        ids += [dict(name=f"k{b}", type="foreign", sql="${k%d_id}" % b) for b in links]
        v = View(f"v{i}", "id", ids, default_date=date or None)
        v.dim("id", "number", primary_key=True, hidden=True)
        for b in links:
            v.dim(f"k{b}_id", "number")
        for d in ("a", "b", "z"):
            v.dim(d, "string", **gate(i, d))
        v.dim("x", "number")
        for d in ("day", "alt"):
            v.time(d, ["raw"] + FRAMES, **gate(i, d))
        for m in mets:
            v.met(m["name"], AGG[m["name"]], "x" if m["name"] != "o" else "id", **({"canon_date": m["date"]} if m["date"] else {}), **gate(i, m["name"]))
        vs.append(v)
    maps = {n: dict(fields=[f"v{f['v']}.{f['f']}" for f in mp["fields"]], **({"group_label": "G"} if rng.random() < 0.3 else {})) for n, mp in zip(names, w["maps"])}
    out = World(vs, model=dict(mappings=maps, access_grants=[dict(name="red", user_attribute="team", allowed_values=["red"])]))
    fk = {f"v{a}": {f"k{b}_id": f"v{b}"} for a, b in LINK[tuple(w["comp"])]}
    return out.random_data(rng, {v.name: rng.randint(3, 6) for v in vs}, fk=fk, nulls=0.1, texts=("a", "b", "c"), ints=(1, 9), ts=lambda r: r.choice(TS))


def cased(rng, s):
    return rng.choice([s, s, s, s.upper(), s.title()])


def request(rng, w, q, names):
    """the request by its own names, as a function of what the mappings are written as"""
    frame = rng.choice(FRAMES)
    dk = len(w["maps"]) + 1
    name = lambda it: frame if it["k"] == dk else names[it["k"] - 1]  # noqa: E731
    conds = []
    for it in q["where"]:
        f = it["f"]["f"]
        if it["k"] == dk:
            num = frame.endswith("_of_year")
            conds.append(dict(expression=rng.choice(["greater_than", "less_or_equal_than", "is_not_null"]), value=rng.choice([2, 9]) if num else "2024-01-05"))
        elif it["k"] and w["maps"][it["k"] - 1]["kind"] == "met":
            conds.append(dict(expression="greater_than", value=3))
        else:
            conds.append(rng.choice([dict(expression="equal_to", value="a"), dict(expression="not_equal_to", value="b"), dict(expression="isin", value=["a", "c"]), dict(expression="is_not_null", value=None)]))
    form = rng.choice(["list", "list", "or", "text"])
    up = [[cased(rng, name(it)) for it in q[p]] for p in ("mets", "dims", "where", "order")]
    order_text, desc = rng.random() < 0.4, rng.random() < 0.5
    limit = rng.choice([None, None, 100])
    tseed = rng.random()

    def write(sub=None, merged=False):
        def ref(it, n):
            if it["k"] == 0:
                f = it["f"]
            elif sub is None:
                return n
            else:
                f = sub[it["k"]]
            t = f"v{f['v']}.{f['f']}"
            return t + f"_{frame}" if f["f"] in ("day", "alt") else t
        m, d, x, o = ([ref(it, n) for it, n in zip(q[p], ns)] for p, ns in zip(("mets", "dims", "where", "order"), up))
        out = dict(metrics=m, dimensions=d)
        ys = [dict(field=f, **{k: v for k, v in y.items() if v is not None}) for f, y in zip(x, conds)]
        if ys:
            if form == "or" and len(ys) == 2:
                out["where"] = [{"conditions": ys, "logical_operator": "OR"}]
            elif form == "text":
                t = qgen.as_text(random.Random(tseed), ys)
                out["where"] = t if t is not None else ys
            else:
                out["where"] = ys
        if o:
            out["order_by"] = f"{o[0]} {'desc' if desc else 'asc'}" if order_text else [dict(field=o[0], sort="desc" if desc else "asc")]
        if limit:
            out["limit"] = limit
        if merged:
            out["merged_result"] = True
        return out

    return write


def result(o, ids):
    if o["status"] != "ok":
        return dict(ok=False, id=0)
    rows = [tuple(map(repr, r)) for r in o["rows"]]
    key = repr((o["cols"], sorted(rows)))
    return dict(ok=True, id=ids.setdefault(key, len(ids) + 1))


def run_world(w, cases, seed):
    rng = random.Random(seed)
    names = rng.choice(NAMES)
    wd = build(w, names, rng)
    db = wd.db()
    conn = world.layer(wd, "SNOWFLAKE")
    conn.set_user({"team": "blue"})
    out = []
    for cs in cases:
        q = cs["q"]
        write = request(rng, w, q, names)
        ids = {}
        mq = write()
        shown = repr(mq)
        got = world.observe(conn, db, "SNOWFLAKE", mq)
        alts = []
        for a in cs["alts"]:
            aq = write(dict(zip(a["ks"], a["fs"])), a["merged"])
            ob = world.observe(conn, db, "SNOWFLAKE", aq)
            alts.append(dict(a, **result(ob, ids), sql=ob["sql"], q=repr(aq), st=ob["status"], err=ob.get("err")))
        out.append(dict(w=w, q=q, got=result(got, ids), alts=alts, sql=got["sql"], status=got["status"], err=got.get("err"), shown=shown, names=names))
    return out


def body(c):
    c.assumptions += ["a field belongs to at most one mapping", "a request whose generated SQL does not run counts as refused when its written-out form does not run either"]
    K = dict(NViews=4, Letters='{"a", "b"}', NMaps=3)
    r = tlc.generate("MappingModel", constants=K, simulate=150 if c.quick else 1500, depth=40, seed=c.seed * 17 + 3, invariants=("Emit", "OneReading", "NothingDenied", "OrderFree"))
    if r.violated:
        raise tlc.TLCError("law of Mapping: " + r.violated)
    c.tlc("Mapping: drawn", r)
    by = {}
    for x in r.cases:
        by.setdefault(repr(x["w"]), (x["w"], []))[1].append(x)
    res = hist.fan_out([(run_world, (w, xs, c.seed * 7919 + i)) for i, (w, xs) in enumerate(by.values())])
    obs = [o for rr in res for o in rr]
    slim = lambda a: {k: a[k] for k in ("ks", "fs", "merged", "ok", "id")}  # noqa: E731
    r = tlc.judge("MappingTrace", [dict(w=o["w"], q=o["q"], got=o["got"], alts=[slim(a) for a in o["alts"]]) for o in obs])
    c.tlc("MappingTrace", r)
    c.traces += len(obs)
    c.count("mappings", worlds=len(by), requests=len(obs), answered=sum(o["got"]["ok"] for o in obs),
            unsatisfiable=sum(not o["alts"] for o in obs), merged=sum(any(a["merged"] for a in o["alts"]) for o in obs))
    for i, v in r.verdicts:
        o = obs[i]
        if v.startswith("CHECK"):
            raise tlc.TLCError(v)
        c.violation(v, dict(request=o["shown"], names=o["names"], w=o["w"], status=o["status"], err=o["err"], sql=o["sql"],
                            alternatives=[dict(q=a["q"], st=a["st"], sql=a["sql"], err=a["err"]) for a in o["alts"]]), key=v)
    c.sample(dict(request=obs[0]["shown"], w=obs[0]["w"], q=obs[0]["q"]))


check.main("C19", body)
