"""C23: an arbitrary merged query is the requested join of what its stand-alone queries return."""
import copy
import random

import check
import qgen
import tlc
import world
from qgen import CMP_OPS, PLAIN, SYM
from world import cmp_, enc

CUM_OK = ("SNOWFLAKE", "POSTGRES", "BIGQUERY", "REDSHIFT")
DATE = {"orders": "placed", "sessions": "seen", "clicks": "hit"}
CHANNEL = {"clicks": "clicks.place", "orders": "orders.status", "sessions": "sessions.device"}
METS = {"clicks": ["n_clicks", "sum_cost"], "orders": ["n_orders", "sum_amount", "avg_amount", "max_amount", "people", "per_order"],
        "sessions": ["n_sessions", "sum_dur", "max_dur"]}
TEXT, NUM, TSV = "text", "num", "ts"
EXTRA = [
    dict(name="per_order", field_type="measure", type="number", sql="${sum_amount} / nullif(${n_orders}, 0)"),
    dict(name="r_sess", field_type="measure", type="number", sql="${sum_amount} / nullif(${sessions.n_sessions}, 0)", is_merged_result=True),
    dict(name="cum_amount", field_type="measure", type="cumulative", measure="sum_amount"),
    dict(name="closing", field_type="measure", type="sum", sql="${amount}", non_additive_dimension={"name": "placed_raw", "window_choice": "max"}),
]


def make_world(rng):
    w = qgen.event_world(shared_people=True, shipped=True, extra_orders=EXTRA)
    qgen.fill_events(w, rng, n=(0 if rng.random() < 0.1 else 2, 6), ts=rng.sample(qgen.EVENT_TS, rng.randint(2, 6)), nulls=0.2)
    return w


def part(rng, dialect, first):
    """-> (request without join fields, ids of its metrics, ids of its dimensions, kind of every dimension, mapping name -> id)"""
    view = rng.choice(sorted(METS))
    kinds, dims, ids, used = [], [], [], {}
    frame = rng.choice(["date", "date", "month", "quarter"])
    pool = [("date", frame), ("channel", None)] + ([("person", None), ("region", None)] if view != "clicks" else [])
    for k in rng.sample(pool, rng.choice([1, 1, 2, 2, 3]) if len(pool) > 2 else rng.choice([1, 2])):
        style = rng.random()
        if k[0] == "date":
            fid = f"{view}.{DATE[view]}_{k[1]}"
            name = k[1] if style < 0.4 else fid
            if style < 0.4:
                used[k[1]] = fid
        elif k[0] == "channel":
            fid = CHANNEL[view]
            name = "channel" if style < 0.4 else fid
            if style < 0.4:
                used["channel"] = fid
        else:
            fid = f"{view}.person_id" if k[0] == "person" else "people.region"
            name = fid
        if rng.random() < 0.1:
            name = name.upper() if "." in name else name
        kinds.append(k)
        dims.append(name)
        ids.append(fid)
    special = rng.random()
    if view == "orders" and special < 0.12:
        mets = ["orders.closing"] + (["orders.n_orders"] if rng.random() < 0.5 else [])
    elif view == "orders" and special < 0.24 and dialect in CUM_OK and any(k[0] == "date" for k in kinds):
        mets = ["orders.cum_amount"]
    elif view == "orders" and special < 0.44 and all(k[0] in ("date",) for k in kinds):
        mets = ["orders.r_sess"]
    else:
        mets = [f"{view}.{m}" for m in rng.sample(METS[view], rng.choice([1, 1, 2]))]
    q = {"metrics": [m if rng.random() < 0.8 else m.split(".")[1] for m in mets], "dimensions": dims}
    plain = all(m.split(".")[1] in METS[view] for m in mets)
    if plain and rng.random() < 0.35:
        q["where"] = [rng.choice([
            {"field": CHANNEL[view], "expression": "isin", "value": ["a", "b"]},
            {"field": "channel", "expression": "not_equal_to", "value": "b"},
            {"field": f"{view}.{DATE[view]}_date", "expression": "greater_than", "value": rng.choice(qgen.EVENT_TS)},
            {"field": CHANNEL[view], "expression": "is_not_null"}])]
        if rng.random() < 0.3:
            q["where"] = [{"conditions": q["where"] + [{"field": CHANNEL[view], "expression": "equal_to", "value": "a"}], "logical_operator": "OR"}]
        qgen.maybe_text(rng, q, "where")
    if plain and rng.random() < 0.2:
        q["having"] = [{"field": mets[0], "expression": rng.choice(list(CMP_OPS)), "value": rng.randint(0, 5)}]
    if plain and rng.random() < 0.2:
        q["order_by"] = [{"field": x, "sort": rng.choice(["asc", "desc"])} for x in rng.sample(mets + ids, 1)]
        if rng.random() < 0.8:
            q["limit"] = rng.randint(1, 4)
            q["order_by"] += [{"field": x, "sort": "asc"} for x in ids if x != q["order_by"][0]["field"]]
    return q, mets, ids, kinds, used


def other_name(rng, fid, used):
    for name, f in used.items():
        if f == fid and rng.random() < 0.5:
            return name
    return fid if rng.random() < 0.9 else fid.upper()


def body(c):
    n = 1200 if c.quick else 4000
    rng = random.Random(c.seed * 37 + 5)
    worlds = []
    for _ in range(max(10, n // 30)):
        w = make_world(rng)
        worlds.append((w, w.db(spine=("2023-12-20", "2024-05-20"))))
    conns, obs, meta = {}, [], []
    tries = 0
    while len(obs) < n and tries < 6 * n:
        tries += 1
        wi = tries % len(worlds)
        w, db = worlds[wi]
        dialect = (SYM + PLAIN)[tries % 10]
        parts = [part(rng, dialect, i == 0) for i in range(rng.choice([2, 2, 2, 3]))]
        joins, ok = [], True
        for p in parts[1:]:
            pairs = [(a, b) for a, ka in enumerate(parts[0][3]) for b, kb in enumerate(p[3]) if ka == kb]
            if not pairs:
                ok = False
                break
            kind = rng.choice(["left_outer", None, "inner", "full_outer"])
            joins.append({"kind": kind, "on": rng.sample(pairs, 1 if rng.random() < 0.5 else len(pairs))})
        if not ok:
            continue
        mq = []
        for i, p in enumerate(parts):
            q = copy.deepcopy(p[0])
            if i:
                q["join_fields"] = [{"field": other_name(rng, p[2][b], p[4]), "source_field": other_name(rng, parts[0][2][a], parts[0][4])}
                                    for a, b in joins[i - 1]["on"]]
                if joins[i - 1]["kind"]:
                    q["join_type"] = joins[i - 1]["kind"]
            mq.append(q)
        # the columns that are shown: every part's metrics and dimensions, without join fields and repeated columns
        cols, want, seen = [], [], set()
        for i, p in enumerate(parts):
            if i:
                seen |= {p[2][b] for _, b in joins[i - 1]["on"]}
            nm = len(p[1])
            for j, fid in enumerate(p[1] + p[2]):
                if fid in seen:
                    continue
                seen.add(fid)
                cols.append({"q": i + 1, "i": (j - nm + 1) if j >= nm else len(p[2]) + j + 1, "fid": fid,
                             "kind": p[3][j - nm] if j >= nm else ("metric", None)})
                want.append(qgen.alias(fid))
        q = {"merged_queries": mq}
        conds = []
        usable = [x for x in cols if x["fid"] not in ("orders.r_sess",)]
        mapping = {}
        for p in parts:
            for name, fid in p[4].items():
                mapping.setdefault(name, fid)
        for slot in ("where", "having"):
            pool = [x for x in usable if (x["kind"][0] == "metric") == (slot == "having")]
            if not pool or rng.random() > 0.35:
                continue
            fs = []
            for x in rng.sample(pool, 1 if rng.random() < 0.7 else min(2, len(pool))):
                kind = x["kind"][0]
                if kind == "metric":
                    ex, v = rng.choice(list(CMP_OPS) + ["is_null", "is_not_null"]), rng.randint(0, 6)
                elif kind == "date":
                    ex, v = rng.choice(["greater_than", "less_than", "greater_or_equal_than", "is_null", "is_not_null"]), rng.choice(qgen.EVENT_TS)
                elif kind == "person":
                    ex, v = rng.choice(["isin", "isnotin", "is_null"]), [1, 2]
                else:
                    ex, v = rng.choice([("isin", ["a", "b"]), ("not_equal_to", "b"), ("is_null", 0), ("is_not_null", 0), ("contains", "a")])
                name = x["fid"]
                if slot == "where" and rng.random() < 0.3:
                    name = next((m for m, f in mapping.items() if f == name), name)
                f = {"field": name, "expression": ex}
                if ex not in ("is_null", "is_not_null"):
                    f["value"] = v
                fs.append(f)
                e = {"q": x["q"], "i": x["i"]}
                conds.append(cmp_(CMP_OPS[ex], e, world.const(v)) if ex in CMP_OPS else qgen.atom_for(ex, e, v))
            if len(fs) == 2 and rng.random() < 0.5:
                fs = [{"conditions": fs, "logical_operator": "OR"}]
                conds[-2:] = [{"op": "or", "args": conds[-2:]}]
            elif len(fs) == 2 and rng.random() < 0.3:
                fs = [{"conditions": fs}]
            q[slot] = fs
            qgen.maybe_text(rng, q, slot, 0.25)
        order = []
        if rng.random() < 0.4:
            ks = rng.sample(range(len(cols)), min(len(cols), rng.choice([1, 1, 2])))
            q["order_by"] = []
            for k in ks:
                name = cols[k]["fid"]
                if rng.random() < 0.3:
                    name = next((m for m, f in mapping.items() if f == name), name)
                s = rng.choice(["asc", "desc", None])
                q["order_by"].append({"field": name, **({"sort": s} if s else {})})
                order.append({"i": k + 1, "desc": s == "desc"})
        if order and rng.random() < 0.2:
            q["order_by"] = ", ".join(y["field"] + (" " + y["sort"] if y.get("sort") else "") for y in q["order_by"])
        limit = rng.choice([0, 0, 0, 1, 3])
        if limit:
            q["limit"] = limit
        ck = (wi, dialect)
        if ck not in conns:
            conns[ck] = (world.layer(w, dialect), world.layer(w, dialect))
        alone, bad = [], None
        for p in parts:
            o = world.observe(conns[ck][0], db, dialect, copy.deepcopy(p[0]))
            names = [x.lower() for x in o["cols"]]
            ws = [qgen.alias(x) for x in p[2] + p[1]]
            if o["status"] != "ok" or any(x not in names for x in ws):
                bad = o["status"] + " " + str(o.get("err"))
                break
            alone.append([[enc(r[names.index(x)]) for x in ws] for r in o["rows"]])
        if bad:        # not a query on its own: nothing to compare with
            c.count("alone", **{"not runnable": 1})
            c.skipped = getattr(c, "skipped", []) + [bad]
            continue
        o = world.observe(conns[ck][1], db, dialect, copy.deepcopy(q))
        obs.append({"parts": alone, "joins": [{"kind": {"inner": "inner", "full_outer": "full"}.get(j["kind"], "left"),
                                               "on": [{"a": a + 1, "b": b + 1} for a, b in j["on"]]} for j in joins],
                    "cols": [{"q": x["q"], "i": x["i"]} for x in cols], "want": want, "names": [x.lower() for x in o["cols"]] or want,
                    "where": conds, "order": order, "limit": limit, "nullslast": dialect not in ("SQL_SERVER", "AZURE_SYNAPSE", "DRUID"), "status": o["status"],
                    "rows": [[enc(x) for x in r] for r in o["rows"]]})
        meta.append({"dialect": dialect, "query": q, "sql": o["sql"], "err": o.get("err"), "rows": o["rows"][:8], "cols": o["cols"]})
        c.count("shapes", **{f"parts{len(parts)}": 1})
    if len(obs) < n // 2:
        raise RuntimeError(f"only {len(obs)} of {n} queries could be compared: {c.skipped[:3]}")
    r = tlc.judge("ArbMergedTrace", obs)
    c.tlc("arbitrary merged", r)
    c.traces += len(obs)
    c.count("arbitrary merged", queries=len(obs), non_empty=sum(bool(o["rows"]) for o in obs), full=sum(any(j["kind"] == "full" for j in o["joins"]) for o in obs))
    for m in meta[:3]:
        c.sample(m["query"])
    for i, clause in r.verdicts:
        c.violation(clause, meta[i])
    c.assumptions += ["generated SQL is executed by SQLite through lib/sqlx.py", "the stand-alone queries are judged by C08, C09, C13-C17"]


check.main("C23", body)
