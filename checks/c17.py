"""C17: a query returns exactly the requested columns, rows, order and limit."""
import contextlib
import copy
import io
import random

import check
import hist
import qgen
import tlc
import world
from qgen import PLAIN, SYM
from world import View, cmp_, col, const

NULLS_LAST = ("SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES", "DUCK_DB", "DATABRICKS", "TRINO")


def if_(c, a, b):
    return {"op": "if", "c": c, "a": a, "b": b}


def tiers(v, name, column, cuts):
    c = col(v.name, column)
    e = if_(cmp_("ge", c, cuts[-1]), const(f"[{cuts[-1]},inf)"), const("Unknown"))
    for a, b in list(zip(cuts, cuts[1:]))[::-1]:
        e = if_({"op": "and", "args": [cmp_("ge", c, a), cmp_("lt", c, b)]}, const(f"[{a},{b})"), e)
    e = if_(cmp_("lt", c, cuts[0]), const(f"Below {cuts[0]}"), e)
    v.yaml["fields"].append(dict(name=name, field_type="dimension", type="tier", sql="${TABLE}." + column, tiers=list(cuts)))
    v.dims[name], v.dim_types[name] = e, "string"


def shape_world():
    w = qgen.std_world()
    o = w.views["orders"]
    o.dim("description").dim("desc", "number").dim("ascii").dim("nulls", "number")
    o.met("desc_total", "sum", "desc").met("basic_desc", "max", "ascii").met("asc", "min", "nulls")
    tiers(o, "amount_tier", "amount", (0, 2, 5))
    tiers(o, "one_tier", "amount", (3,))
    tiers(w.views["customers"], "age_tier", "age", (-1, 0, 1, 4))
    d = View("depots", "depot_id", identifiers=[dict(name="depot_id", type="primary", sql="${depot_id}")])
    d.dim("depot_id", "number", primary_key=True).dim("place").dim("size", "number").met("n_depots", "count").met("size_desc", "sum", "size")
    tiers(d, "size_tier", "size", (1, 3))
    w.views["depots"] = d
    return w


def raw_of(w, ref):
    m = w.met(ref)
    return m["e"] if m["c"] == world.TRUE else if_(m["c"], m["e"], {"op": "const", "v": []})


def instance(w, r, rng):
    """-> (query, spec parts) for a drawn shape, or None"""
    if rng.random() < 0.1:
        vs = ["depots"]
    else:
        vs = qgen.subtree(rng, r["views"])
    dims = [f"{v}.{d}" for v in vs for d in w.views[v].dims]
    hot = [d for d in dims if any(x in d for x in ("desc", "asc", "tier", "nulls"))]
    mets = [f"{v}.{m}" for v in vs for m, s in w.views[v].mets.items()
            if not (m == "qty_minus_price" and "products" not in vs)]
    dims = sorted({rng.choice(hot if hot and rng.random() < 0.3 else dims) for _ in range(r["nd"])})
    mets = rng.sample(sorted(mets), min(r["nm"], len(mets)))
    rng.shuffle(dims)
    if r["pk"] and mets and dims:
        v = mets[0].split(".")[0]
        dims[rng.randrange(len(dims))] = f"{v}.{w.views[v].key}"
        if len(set(dims)) < len(dims):
            return None
    if not dims and not mets:
        return None
    nogroup = any(mets and d == f"{mets[0].split('.')[0]}.{w.views[mets[0].split('.')[0]].key}" for d in dims) and not r["force"]
    if nogroup and any(w.met(m)["kind"] != "agg" or w.met(m)["agg"] in ("sum_distinct", "average_distinct") for m in mets):
        return None
    if r["dialect"] in PLAIN and any(w.met(m)["kind"] == "agg" and "distinct" in w.met(m)["agg"] and w.met(m)["agg"] != "count_distinct" for m in mets):
        return None
    asked = dims + mets
    q = {"metrics": mets, "dimensions": dims}
    if r["force"]:
        q["force_group_by"] = True
    order = [o for o in r["order"] if o["i"] <= len(asked)]
    if order:
        def text(o):
            f = asked[o["i"] - 1]
            if r["bare"] and sum(f.split(".")[1] in v.dims or f.split(".")[1] in v.mets for v in w.views.values()) == 1:
                f = f.split(".")[1]
            return f.split(".")[0] + "." + f.split(".")[1].upper() if r["up"] and "." in f else f
        if r["form"] == "text":
            q["order_by"] = rng.choice([",", ", "]).join(text(o) + (" " + o["dir"] if o["dir"] else "") + rng.choice(["", "", " nulls last", " NULLS LAST"]) for o in order)
        else:
            q["order_by"] = [dict({"field": text(o)}, **({"sort": o["dir"]} if o["dir"] else {})) for o in order]
    if r["limit"] >= 0:
        q["limit"] = r["limit"]
    where, having = [], []
    if r["where"]:
        q["where"], where = qgen.random_where(rng, w, [f"{v}.{d}" for v in vs for d in w.views[v].dims if "tier" not in d or d == "tier"])
    hm = [m for m in mets if w.met(m)["kind"] == "agg" and not (w.met(m)["agg"] in ("max", "min") and "basic" in m)]
    if r["having"] and hm:
        q["having"], having = qgen.random_having(rng, w, hm)
    extra = []
    if r["raw"] and not nogroup and vs != ["depots"]:
        f = rng.choice(dims or [f"{mets[0].split('.')[0]}.{w.views[mets[0].split('.')[0]].key}"])
        v, n = f.split(".")
        c = w.views[v].dims[n]
        if c["op"] == "col":
            q["select_raw_sql"] = [f"{v}.{c['col']} as extra_col"]
            extra = [c]
    return q, dict(where=where, having=having, nogroup=nogroup, extra=extra, asked=asked, order=order,
                   may=not (nogroup and (order or having)))


def observe(w, db, conn, r, q, s):
    o = world.observe(conn, db, r["dialect"], copy.deepcopy(q))
    if o["status"] in ("raised ArgumentError", "raised QueryError"):
        o["status"] = "refused"
    plan = world.plan_of(o["sql"]) if o["sql"] else None
    if o["status"] == "ok" and plan is None:
        o["status"] = "unreadable plan"
    sq = qgen.spec_query(w, q, where=s["where"], having=s["having"], dialect=r["dialect"], nogroup=s["nogroup"])
    sq["limit"] = 0
    nd, nx = len(q["dimensions"]), len(s["extra"])
    sq["dims"] += s["extra"]
    sq["raws"] = [raw_of(w, m) for m in q["metrics"]] if s["nogroup"] else []
    sq["order"] = [{"i": k["i"] if k["i"] <= nd else k["i"] + nx, "desc": k["dir"].lower() == "desc"} for k in s["order"]]
    want = [qgen.alias(x).lower() for x in s["asked"]] + ["extra_col"] * nx
    cols = [str(x).lower() for x in o["cols"]]
    n = len(s["asked"])

    def turn(row):       # the extra columns go with the dimensions
        return list(row[:nd]) + list(row[n:]) + list(row[nd:n]) if nx else list(row)
    return {"mode": "query", "plan": plan or {"base": next(iter(w.views)), "joins": []}, "q": sq, "status": o["status"], "may": s["may"],
            "rows": [[world.enc(x) for x in turn(row)] for row in o["rows"]], "cols": cols, "want": want,
            "first": [r["limit"]] if r["limit"] >= 0 else [], "nulls": r["dialect"] in NULLS_LAST}, o


def play(cases, seed):
    rng = random.Random(seed)
    w0 = shape_world()
    ws, obs, meta = [], [], []
    conns = {}
    with contextlib.redirect_stdout(io.StringIO()):
        for k, r in enumerate(cases):
            if k % 12 == 0:
                w = copy.copy(w0)
                w.data = {}
                qgen.fill(w, rng, 2)
                ws.append(w.spec_tables())
                db = w.db()
            x = instance(w, r, rng)
            if x is None:
                continue
            conn = conns.get(r["dialect"]) or conns.setdefault(r["dialect"], world.layer(w0, r["dialect"]))
            ob, o = observe(w, db, conn, r, *x)
            if o["status"] == "raised JoinError":
                continue
            obs.append(dict(ob, w=len(ws)))
            meta.append(dict(dialect=r["dialect"], query=x[0], sql=o["sql"], err=o.get("err"), rows=o["rows"][:8]))
    return ws, obs, meta


# ------------------------------------------------------------------ limits of composite queries
def parts(n, seed):
    rng = random.Random(seed)
    w = qgen.event_world()
    o = w.views["orders"].yaml["fields"]
    o.append(dict(name="running", field_type="measure", type="cumulative", measure="sum_amount"))
    w.views["people"].yaml["fields"].append(dict(name="tag", field_type="dimension", type="string", sql="${TABLE}.region"))
    qgen.fill_events(w, rng, n=(4, 9))
    obs, meta = [], []
    with contextlib.redirect_stdout(io.StringIO()):
        for _ in range(n):
            d = rng.choice(SYM + PLAIN)
            t = rng.choice(["date", "month", "year", "week"])
            kind = rng.choice(["merged", "merged", "mapped", "cumulative", "funnel", "arbitrary"])
            order, want = [], None
            if kind == "merged":
                mets = rng.sample(["orders.n_orders", "orders.sum_amount"], rng.randint(1, 2)) + rng.sample(["sessions.n_sessions", "sessions.sum_dur", "clicks.n_clicks"], rng.randint(1, 2))
                q = dict(metrics=mets, dimensions=[t] if rng.random() < 0.8 else [])
                views = sorted({m.split(".")[0] for m in mets})
                day = {"orders": "placed", "sessions": "seen", "clicks": "hit"}
                want = [qgen.alias(m) for m in mets] + ([f"{v}_{day[v]}_{t}" for v in views] if q["dimensions"] else [])
            elif kind == "mapped":
                q = dict(metrics=["orders.n_orders", "sessions.n_sessions"], dimensions=["channel"])
                want = ["orders_n_orders", "sessions_n_sessions", "orders_status", "sessions_device"]
            elif kind == "cumulative":
                q = dict(metrics=["orders.running"] + rng.sample(["orders.n_orders"], rng.randint(0, 1)), dimensions=[f"orders.placed_{t}"] if rng.random() < 0.7 else [])
                want = [qgen.alias(x) for x in q["dimensions"] + q["metrics"]]
            elif kind == "funnel":
                q = dict(metrics=["orders.n_orders"], dimensions=rng.sample(["orders.status"], rng.randint(0, 1)),
                         funnel=dict(steps=[[{"field": "orders.status", "expression": "equal_to", "value": "a"}],
                                            [{"field": "orders.status", "expression": "equal_to", "value": "b"}]], within={"value": 200, "unit": "days"}))
                want = ["step", "step_order"] + [qgen.alias(x) for x in q["metrics"] + q["dimensions"]]
            else:
                q = dict(merged_queries=[dict(metrics=["orders.n_orders", "orders.sum_amount"], dimensions=["orders.status"]),
                                         dict(metrics=["sessions.n_sessions"], dimensions=["sessions.device"], join_fields=[dict(field="sessions.device", source_field="orders.status")])])
                ob = rng.choice([[], [("orders.n_orders", "desc")], [("orders.sum_amount", ""), ("orders.status", "desc")], [("sessions.n_sessions", "ASC")]])
                if ob:
                    q["order_by"] = [dict({"field": f}, **({"sort": s} if s else {})) for f, s in ob]
                order = ob
            conn = world.layer(w, d)
            db = w.db(spine=("2024-01-01", "2024-12-31")) if kind == "cumulative" else w.db()
            full = world.observe(conn, db, d, copy.deepcopy(q))
            if kind == "cumulative" and full["status"] == "raised NotImplementedError":      # no date spine for this warehouse
                continue
            if full["status"] != "ok":
                lim, k = full, 0
            else:
                k = rng.choice([0, 1, 2, len(full["rows"]), 50])
                lim = world.observe(conn, db, d, copy.deepcopy(dict(q, limit=k)))
            cols = [str(x).lower() for x in lim["cols"]]
            fixed = [x.lower() for x in full["cols"]] if want is None else want
            obs.append({"mode": "part", "w": 1, "status": lim["status"], "cols": sorted(cols), "want": sorted(fixed), "first": [k],
                        "rows": [[world.enc(x) for x in row] for row in lim["rows"]], "full": [[world.enc(x) for x in row] for row in full["rows"]],
                        "order": [{"i": cols.index(qgen.alias(f)) + 1, "desc": s.lower() == "desc"} for f, s in order] if lim["status"] == "ok" and all(qgen.alias(f) in cols for f, _ in order) else [],
                        "nulls": d in NULLS_LAST})
            meta.append(dict(dialect=d, kind=kind, query=dict(q, limit=k), sql=lim["sql"], err=lim.get("err"), rows=lim["rows"][:8], full=full["rows"][:12]))
    return [w.spec_tables()], obs, meta


def body(c):
    c.assumptions += ["a dimension or metric is asked for once", "no two fields have the same alias",
                      "warehouses without NULLS LAST (Druid, SQL Server, Synapse) may put NULLs anywhere",
                      "merged results, cumulative and funnel queries have no order of their own: their columns and limits are checked"]
    n = 12000 if c.quick else 40000
    r = tlc.generate("ShapeModel", constants=dict(Dialects="{" + ", ".join(f'"{d}"' for d in SYM + PLAIN) + "}", Forms='{"text", "list"}', MaxDims=3, MaxMets=3),
                     simulate=n, depth=2, seed=c.seed * 3 + 1, invariants=["Emit"])
    c.tlc("ShapeModel: drawn requests", r)
    k = 8 if c.quick else 48
    jobs = [(play, (r.cases[i::k], c.seed * 1009 + i)) for i in range(k)]
    jobs += [(parts, (60 if c.quick else 400, c.seed * 2003 + i)) for i in range(4)]
    W, O, M = [], [], []
    for ws, obs, meta in hist.fan_out(jobs):
        O += [dict(o, w=o["w"] + len(W)) for o in obs]
        W += ws
        M += meta
    r = tlc.judge("ShapeTrace", O, worlds=W)
    c.tlc("ShapeTrace", r)
    c.traces += len(O)
    q = [o for o in O if o["mode"] == "query"]
    c.count("requests", single=len(q), composite=len(O) - len(q), ordered=sum(bool(o["q"]["order"]) for o in q), limited=sum(bool(o["first"]) for o in O),
            ungrouped=sum(o["q"]["nogroup"] for o in q), refused=sum(o["status"] == "refused" for o in q))
    for i in (0, 1, len(M) - 1):
        c.sample({x: M[i][x] for x in ("dialect", "query")})
    for i, clause in r.verdicts:
        c.violation(clause, M[i], key=None)


check.main("C17", body)
