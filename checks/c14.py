"""C14: cumulative metrics accumulate exactly the rows up to each date."""
import copy
import datetime as dt
import random

import check
import qgen
import tlc
import world
from qgen import CMP_OPS
from world import cmp_, col, enc

DIALECTS = ("SNOWFLAKE", "POSTGRES", "BIGQUERY", "REDSHIFT")
LO, TODAY = "2023-12-20T00:00:00", "2024-03-14T00:00:00"
TS = ["2023-12-31T23:59:59", "2024-01-01T00:00:00", "2024-01-07T23:59:59", "2024-01-08T00:00:00", "2024-01-31T12:00:00",
      "2024-02-01T00:00:00", "2024-02-29T01:00:00", "2024-03-01T00:00:00", "2024-03-13T23:00:00", "2024-03-14T05:00:00",
      "2024-03-15T00:00:00", "2024-04-02T00:00:00"]
# name -> (owner view, base measure)
CUMS = {
    "cum_amount": ("orders", "sum_amount", []), "cum_orders": ("orders", "n_orders", []), "cum_avg": ("orders", "avg_amount", []),
    "cum_people": ("orders", "people", []), "cum_max": ("orders", "max_amount", []),
    "cum_open": ("orders", "n_orders", [("ge", "shipped", True)]),
    "cum_gone": ("orders", "sum_amount", [("lt", "shipped", True)]),
    "cum_raw": ("orders", "n_orders", [("le", "shipped", False)]),
    "cum_joined": ("people", "n_people", []), "cum_left": ("people", "n_people", [("lt", "left_on", True)]),
}
SIGN = {"ge": ">=", "lt": "<", "le": "<="}
DERIVED = {
    "d_plain": ("${cum_amount} - ${n_orders}", "-", ("cum", "cum_amount"), ("plain", "n_orders")),
    "d_two": ("${cum_amount} / nullif(${cum_orders}, 0)", "/", ("cum", "cum_amount"), ("cum", "cum_orders")),
    "d_people": ("${cum_orders} + ${cum_joined}", "+", ("cum", "cum_orders"), ("cum", "cum_joined")),
}
DATE = {"orders": "placed", "people": "joined"}
FRAMES = {"date": "day", "week": "week", "month": "month", "quarter": "quarter", "year": "year"}


def make_world(rng):
    extra = []
    for name, (view, base, cw) in CUMS.items():
        ref = base if view == "orders" else f"{view}.{base}"
        d = dict(name=name, field_type="measure", type="cumulative", measure=ref)
        if cw:
            f, fld, upd = cw[0]
            d["cumulative_where"] = "${%s.%s_date} %s ${cumulative_date}" % (view, fld, SIGN[f])
            if not upd:
                d["update_where_timeframe"] = False
        extra.append(d)
    extra += [dict(name=n, field_type="measure", type="number", sql=s[0]) for n, s in DERIVED.items()]
    w = qgen.event_world(shipped=True, extra_orders=extra)
    p = w.views["people"]
    p.yaml["default_date"] = "joined"
    p.time("joined", ("raw", "time", "date", "week", "month", "quarter", "year"))
    p.time("left_on", ("raw", "time", "date", "week", "month", "quarter", "year"))
    p.dim("grade", "number")
    qgen.fill_events(w, rng, n=(0 if rng.random() < 0.15 else 1, 6), ts=rng.sample(TS, rng.randint(2, 7)), texts=("a", "b"))
    return w


def plan(*views):
    if set(views) == {"people"}:
        return {"base": "people", "joins": []}
    j = [{"view": "people", "kind": "left", "on": [{"a": col("orders", "person_id"), "b": col("people", "person_id")}]}]
    return {"base": "orders", "joins": j if "people" in views else []}


def flat(ys):
    return [x for y in ys for x in (flat(y["conditions"]) if "conditions" in y else [y])]


def main(c):
    n = 1600 if c.quick else 12000
    rng = random.Random(c.seed * 17 + 1)
    worlds = []
    for _ in range(max(10, n // 25)):
        w = make_world(rng)
        worlds.append((w, w.db(spine=(LO[:10], "2024-04-20"))))
    day = lambda s: world.secs(s) // 86400
    conns, obs, meta = {}, [], []
    for i in range(n):
        wi = i % len(worlds)
        w, db = worlds[wi]
        dialect = DIALECTS[i % len(DIALECTS)]
        names = rng.sample(list(CUMS), rng.choice([1, 1, 1, 2]))
        plain = rng.sample(["n_orders", "sum_amount", "avg_amount"], rng.choice([0, 0, 1, 1, 2]))
        derived = [rng.choice(["d_two", "d_people"] if rng.random() < 0.85 else ["d_plain"])] if rng.random() < 0.25 else []
        mets = [f"orders.{m}" for m in names + plain + derived]
        if rng.random() < 0.2 and derived:
            mets = [f"orders.{m}" for m in derived]
        rng.shuffle(mets)
        frame = rng.choice(["date", "week", "month", "quarter", "year", None] if dialect != "BIGQUERY" else ["date", "month", "quarter", "year", None])
        others = rng.sample(["orders.status", "people.region"], rng.choice([0, 0, 1, 1, 2]))
        dims = list(others)
        owners = [CUMS[m][0] for m in names]
        q = {"metrics": mets}
        # the date dimension is the default date of one of the cumulative metrics' views
        order, seen_plain = [], []

        def add(kind, name):
            if kind == "cum" and name not in order:
                order.append(name)
            if kind == "plain" and name not in seen_plain:
                seen_plain.append(name)
        having, hspec = [], []
        if rng.random() < 0.25:
            m = rng.choice([x.split(".")[1] for x in mets])
            ex, k = rng.choice(list(CMP_OPS)), rng.randint(0, 6)
            having = [{"field": "orders." + m, "expression": ex, "value": k}]
        for m in [x.split(".")[1] for x in mets + [h["field"] for h in having]]:
            if m in CUMS:
                add("cum", m)
            elif m in DERIVED:
                for kind, ref in DERIVED[m][2:]:
                    add(kind, ref)
            else:
                add("plain", m)
        owners = [CUMS[m][0] for m in order]
        dv = "orders" if "orders" in owners else "people"
        if not order:
            continue
        if frame:
            if seen_plain and dv == "people":
                dv = "people"
            dims.insert(rng.randint(0, len(dims)), f"{dv}.{DATE[dv]}_{frame}")
        q["dimensions"] = dims
        # filters
        rowf, dwf, where = [], [], []
        used = set()
        if rng.random() < 0.35:
            refs = ["orders.amount", "orders.status"] + (["people.region"] if rng.random() < 0.5 else [])
            ys, rowf = qgen.random_where(rng, w, refs, depth=rng.choice([0, 0, 1]))
            where += ys
            used |= {f["field"].split(".")[0] for f in flat(ys)}
        if rng.random() < 0.4:
            alts, ys, cs = [], [], []
            for _ in range(rng.choice([1, 1, 2])):
                ff = rng.choice(["date", "raw", "month"])
                ex, v = rng.choice(["greater_than", "less_than", "greater_or_equal_than", "less_or_equal_than"]), rng.choice(TS)
                ys.append({"field": f"{dv}.{DATE[dv]}_{ff}", "expression": ex, "value": v})
                alts.append({"unit": "month" if ff == "month" else "day", "f": CMP_OPS[ex], "v": world.secs(v)})
                cs.append(cmp_(CMP_OPS[ex], w.dim(f"{dv}.{DATE[dv]}_{ff}"), world.const(v)))
            either = len(ys) == 2 and rng.random() < 0.5
            where += [{"conditions": ys, "logical_operator": "OR"}] if either else [{"conditions": ys}] if len(ys) == 2 and rng.random() < 0.5 else ys
            dwf = [alts] if either else [[x] for x in alts]
            drow = {"op": "or" if either else "and", "args": cs}
        else:
            drow = None
        if where:
            rng.shuffle(where)
            q["where"] = where
        if having:
            q["having"] = having
        texts = qgen.maybe_text(rng, q, "where") + qgen.maybe_text(rng, q, "having")
        c.count("shapes", conditions_as_text=texts)
        limit = rng.choice([0, 0, 0, 2])
        if limit:
            q["limit"] = limit
        dimviews = {d.split(".")[0] for d in dims}
        e_dims = [w.dim(d) for d in dims]
        di = next((k + 1 for k, d in enumerate(dims) if frame and d == f"{dv}.{DATE[dv]}_{frame}"), 0)
        unit = FRAMES[frame or "date"]
        cums = []
        for m in order:
            view, base, cw = CUMS[m]
            vs = {view} | dimviews | used | ({dv} if drow else set())
            mm = w.met(f"{view}.{base}")
            cws = [{"f": f, "e": {"op": "trunc", "unit": unit if upd else "day", "ws": 0, "e": col(view, fld)}} for f, fld, upd in cw]
            cums.append({"plan": plan(*vs), "where": {"op": "and", "args": rowf}, "date": col(view, DATE[view]), "m": mm, "cw": cws})
        plains = []
        for m in seen_plain:
            vs = {"orders"} | dimviews | used | ({dv} if drow else set())
            plains.append({"plan": plan(*vs), "where": {"op": "and", "args": rowf + ([drow] if drow else [])}, "m": w.met("orders." + m)})

        def expr(m):
            if m in CUMS:
                return {"kind": "cum", "i": order.index(m) + 1}
            if m in DERIVED:
                _, f, a, b = DERIVED[m]
                return {"kind": "bin", "f": f, "a": expr(a[1]), "b": expr(b[1])}
            return {"kind": "plain", "i": seen_plain.index(m) + 1}
        out = [expr(x.split(".")[1]) for x in mets]
        for h in having:
            hspec.append({"op": "cmp", "f": CMP_OPS[h["expression"]], "m": expr(h["field"].split(".")[1]), "v": enc(h["value"])})
        conn = conns.setdefault((wi, dialect), world.layer(w, dialect))
        o = world.observe(conn, db, dialect, copy.deepcopy(q), today=TODAY[:10])
        obs.append({"w": wi + 1, "dims": e_dims, "di": di, "unit": unit, "ws": 0, "lo": day(LO), "today": day(TODAY), "cums": cums,
                    "dwhere": dwf, "plain": plains, "out": out, "having": hspec, "limit": limit, "status": o["status"],
                    "cols": [str(x).lower() for x in o["cols"]], "want": [qgen.alias(x) for x in dims + mets], "mode": "own",
                    "rows": [[enc(x) for x in r] for r in o["rows"]]})
        meta.append({"dialect": dialect, "query": q, "sql": o["sql"], "err": o.get("err"), "rows": o["rows"][:6], "nodate": frame is None})
        c.count("shapes", **{f"frame_{frame}": 1, "with_plain": bool(plains), "with_cumulative_where": any(k["cw"] for k in cums)})
    r = tlc.judge("CumulativeTrace", obs, worlds=[w.spec_tables() for w, _ in worlds])
    c.tlc("cumulative", r)
    c.traces += len(obs)
    c.count("cumulative", queries=len(obs), non_empty=sum(bool(o["rows"]) for o in obs))
    for m in meta[:3]:
        c.sample(m["query"])
    for i, clause in r.verdicts:
        key = "no-date" if clause == "accumulated once per day" and meta[i]["nodate"] else None
        if "orders.d_plain" in str(meta[i]["query"]):
            key = "mixed-derived"
        c.violation(clause, meta[i], key=key)
    c.assumptions += ["generated SQL is executed by SQLite through lib/sqlx.py", "the date spine is cut to 2023-12-20 .. 2024-04-20"]


check.main("C14", main)
