"""C15: funnels count what passed the steps in order; funnel filters keep exactly the converted / dropped-off entities."""
import copy
import random

import check
import qgen
import tlc
import world
from qgen import CMP_OPS, SYM
from world import col, enc

O_PEOPLE = {"base": "orders", "joins": [{"view": "people", "kind": "left",
                                         "on": [{"a": col("orders", "person_id"), "b": col("people", "person_id")}]}]}
NARROW = ["2024-01-03T00:00:00", "2024-01-03T00:00:30", "2024-01-03T23:59:59", "2024-01-04T00:00:00", "2024-01-04T06:00:00",
          "2024-01-06T00:00:00", "2024-01-08T00:00:00", "2024-01-10T12:00:00", "2024-01-25T00:00:00"]
WIDE = NARROW + ["2024-02-01T00:00:00", "2024-02-29T01:00:00", "2024-03-05T00:00:00", "2025-01-01T00:00:00"]
UNITS = {"seconds": "second", "minutes": "minute", "hours": "hour", "days": "day", "weeks": "week", "months": "month",
         "quarters": "quarter", "years": "year"}
METS = ["n_orders", "sum_amount", "avg_amount", "max_amount", "people", "n_big"]


def make_world(rng):
    w = qgen.event_world()
    w.views["orders"].met("n_big", "count", "amount", filters=[dict(field="amount", value=">2")],
                          cond=world.cmp_("gt", col("orders", "amount"), 2))
    wide = rng.random() < 0.5
    pool = WIDE if wide else NARROW
    qgen.fill_events(w, rng, n=(4, 10), ts=rng.sample(pool, rng.randint(4, 8)), texts=("a", "b", "c"), nulls=0.1)
    for r in w.data["orders"]:      # few people, many events each; some rows without a date
        r["person_id"] = rng.choice([1, 1, 1, 2, 2, 3, None])
        if rng.random() < 0.07:
            r["placed"] = None
    return w, wide


def step(rng, w):
    if rng.random() < 0.25:
        return [{"value": "true", "expression": "equal_to"}], {"op": "and", "args": []}
    ys, cs = [], []
    for _ in range(rng.choice([1, 1, 1, 2])):
        ref = rng.choice(["orders.status"] * 4 + ["orders.amount", "people.region"])
        if ref == "orders.status" and rng.random() < 0.85:
            v = rng.choice("aaabbc")
            ex = rng.choice(["equal_to", "not_equal_to", "not_equal_to"])
            y, c = {"field": ref, "expression": ex, "value": v}, qgen.atom_for(ex, w.dim(ref), v)
        else:
            y, c = qgen.random_atom(rng, w, ref, texts=("a", "b", "c"))
        ys.append(y)
        cs.append(c)
    return ys, {"op": "and", "args": cs}


def body(c):
    n = 2400 if c.quick else 16000
    rng = random.Random(c.seed * 19 + 7)
    worlds = []
    for _ in range(max(12, n // 15)):
        w, wide = make_world(rng)
        worlds.append((w, w.db(), wide))
    conns, obs, meta = {}, [], []
    for i in range(n):
        wi = i % len(worlds)
        w, db, wide = worlds[wi]
        dialect = SYM[i % len(SYM)]
        steps, conds = zip(*[step(rng, w) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))])
        unit = rng.choice(list(UNITS))
        val = rng.choice({"second": [29, 30, 86399], "minute": [0, 1, 1440], "hour": [6, 24, 100], "day": [0, 1, 3, 20, 40],
                          "week": [0, 1, 3], "month": [0, 1, 2], "quarter": [0, 1, 1], "year": [0, 1, 1]}[UNITS[unit]])
        pgdefect = dialect == "POSTGRES" and (UNITS[unit] in ("second", "minute") or (wide and UNITS[unit] in ("hour", "day", "week")))
        if pgdefect and i % 9:      # the known Postgres duration defect is only sampled
            pgdefect, unit, val = False, "months", rng.choice([0, 1, 2])
        mode = "complete" if dialect == "POSTGRES" or (dialect == "BIGQUERY" and UNITS[unit] in ("second", "minute", "hour")) else "boundary"
        if dialect == "BIGQUERY" and unit == "years":
            unit = "quarters"     # ISO years
        f = {"steps": [copy.deepcopy(s) for s in steps], "within": {"value": val, "unit": rng.choice([unit, unit[:-1]])}}
        where, wc = [], []
        if rng.random() < 0.4:
            where, wc = qgen.random_where(rng, w, ["orders.amount", "orders.status"] + (["people.region"] if rng.random() < .4 else []), depth=0)
        fn = {"plan": O_PEOPLE, "where": {"op": "and", "args": wc}, "date": col("orders", "placed"), "link": col("orders", "person_id"),
              "steps": list(conds), "unit": UNITS[unit], "n": val, "mode": mode}
        kind = rng.choice(["funnel", "filter"]) if len(steps) > 1 else "funnel"
        mets = rng.sample(METS, rng.choice([1, 1, 2]))
        dims = rng.sample(["orders.status", "people.region", "orders.placed_month"], rng.choice([0, 0, 1, 2]))
        q = {"metrics": ["orders." + m for m in mets], "dimensions": dims}
        having, hs = [], []
        if rng.random() < 0.25:
            m = rng.choice(mets)
            ex, k = rng.choice(list(CMP_OPS)), rng.randint(0, 4)
            having = [{"field": "orders." + m, "expression": ex, "value": k}]
            hs = [{"op": "cmp", "f": CMP_OPS[ex], "m": w.met("orders." + m), "v": enc(k)}]
            q["having"] = having
        limit = rng.choice([0, 0, 0, 0, 2])
        if limit:
            q["limit"] = limit
        sq = qgen.spec_query(w, q, where=wc, having=hs, dialect=dialect)
        o = {"w": wi + 1, "kind": kind, "fn": fn, "q": sq, "plan": O_PEOPLE, "f": {"from": 1, "to": 1, "converted": True}}
        if kind == "funnel":
            q["funnel"] = f
            if where:
                q["where"] = where
            if rng.random() < 0.3 or len(mets) > 1:
                f["view_name"] = "orders"
        else:
            fr = rng.randint(1, len(steps) - 1)
            to = rng.randint(fr + 1, len(steps))
            o["f"] = {"from": fr, "to": to, "converted": rng.random() < 0.5}
            f["view_name"] = "orders"
            flt = {"funnel": f, "field": "orders.person_id", "expression": "converted" if o["f"]["converted"] else "dropped_off",
                   "from": fr, "to": to}
            q["where"] = where + [flt] if rng.random() < 0.5 else [flt] + where
        if kind == "funnel":
            qgen.maybe_text(rng, q, "where")
        qgen.maybe_text(rng, q, "having")
        conn = conns.setdefault((wi, dialect), world.layer(w, dialect))
        r = world.observe(conn, db, dialect, copy.deepcopy(q))
        cols = [str(x).lower() for x in r["cols"]]
        ma, da = ["orders_" + m for m in mets], [qgen.alias(d) for d in dims]
        want = (["step", "step_order"] + ma + da) if kind == "funnel" else da + ma
        o.update(status=r["status"], cols=cols, want=want, limit=limit)
        rows = []
        if cols == want:
            for row in r["rows"]:
                e = [enc(x) for x in row]
                if kind == "funnel":
                    k = row[1] if row[0] == f"Step {row[1]}" else 0
                    rows.append({"k": k, "row": e[2 + len(ma):] + e[2:2 + len(ma)]})
                else:
                    rows.append(e)
        o["rows"] = rows
        if kind == "funnel" and limit:
            sq["limit"] = -limit
        if kind == "filter":
            sq["order"] = qgen.default_order(q, dialect)
        obs.append(o)
        meta.append({"kind": kind, "dialect": dialect, "query": q, "sql": r["sql"], "err": r.get("err"), "rows": r["rows"][:6],
                     "pgdefect": pgdefect})
        c.count("shapes", **{kind: 1, f"steps{len(steps)}": 1, "limited": bool(limit), "unit_" + unit: 1})
    r = tlc.judge("FunnelTrace", obs, worlds=[w.spec_tables() for w, _, _ in worlds])
    c.tlc("funnel", r)
    c.traces += len(obs)
    c.count("funnel", queries=len(obs), last_step_reached=sum(
        o["kind"] == "funnel" and any(x["k"] == len(o["fn"]["steps"]) and any(x["row"]) for x in o["rows"]) for o in obs))
    for m in meta[:3]:
        c.sample(m["query"])
    for i, clause in r.verdicts:
        c.violation(clause, meta[i], key="postgres-duration" if meta[i]["pgdefect"] else None)
    c.assumptions += ["generated SQL is executed by SQLite through lib/sqlx.py"]


check.main("C15", body)
