"""C13: merged results show every metric's own value, aligned on the shared dimensions."""
import copy
import random

import check
import qgen
import tlc
import world
from qgen import PLAIN, SYM, CMP_OPS
from world import col, enc

ALL = SYM + PLAIN
JP = lambda v: {"base": v, "joins": [{"view": "people", "kind": "left",
                                      "on": [{"a": col(v, "person_id"), "b": col("people", "person_id")}]}]}
# side name -> (view, canon date)
SIDES = {"clicks_hit": ("clicks", "hit"), "orders_placed": ("orders", "placed"), "orders_shipped": ("orders", "shipped"),
         "sessions_seen": ("sessions", "seen")}
METS = {"clicks_hit": ["n_clicks", "sum_cost"], "orders_placed": ["n_orders", "sum_amount", "avg_amount", "max_amount", "people"],
        "orders_shipped": ["n_shipped", "shipped_amount"], "sessions_seen": ["n_sessions", "sum_dur", "max_dur"]}
CHANNEL = {"clicks": "clicks.place", "orders": "orders.status", "sessions": "sessions.device"}
REGION_OK = {"orders_placed", "orders_shipped", "sessions_seen"}

DERIVED = [   # (yaml on orders, sides+metrics, expression builder)
    ("r_sess", "${sum_amount} / nullif(${sessions.n_sessions}, 0)", ["orders_placed.sum_amount", "sessions_seen.n_sessions"],
     lambda a, b: qgen.bin_("/", a, b)),
    ("d_ship", "${n_orders} - ${n_shipped}", ["orders_placed.n_orders", "orders_shipped.n_shipped"], lambda a, b: qgen.bin_("-", a, b)),
    ("s_cost", "${clicks.sum_cost} + 2 * ${n_orders}", ["clicks_hit.sum_cost", "orders_placed.n_orders"],
     lambda a, b: qgen.bin_("+", a, qgen.bin_("*", {"kind": "const", "v": enc(2)}, b))),
]


def make_world(rng):
    extra = [dict(name=n, field_type="measure", type="number", sql=sql, is_merged_result=True) for n, sql, _, _ in DERIVED]
    w = qgen.event_world(shared_people=True, shipped=True, extra_orders=extra)
    few = rng.sample(qgen.EVENT_TS, rng.randint(2, 6))
    qgen.fill_events(w, rng, n=(0 if rng.random() < 0.2 else 2, 6), ts=few, texts=rng.choice([("a", "b"), ("a", "b", "c"), ("a", "d", "e", "f")]))
    return w


def gen(rng, dialect):
    """-> (query, spec sides dict name -> [metric names], dimension kinds, derived, where, having, limit)"""
    k = rng.choice([2, 2, 2, 3, 3, 4])
    names = sorted(rng.sample(list(SIDES), k))
    kinds = []
    frames = ["date", "month", "quarter", "year"] + ([] if dialect in ("BIGQUERY", "SQL_SERVER", "AZURE_SYNAPSE") else ["week"])
    groups = {SIDES[n][0] for n in names}
    r = rng.random()
    if r < 0.75:
        kinds.append(("date", rng.choice(frames)))
    if len(groups) == 2 and rng.random() < 0.5:
        kinds.append(("channel", None))
    if set(names) <= REGION_OK and len(groups) == 2 and rng.random() < 0.3:
        kinds.append(("region", None))
    rng.shuffle(kinds)
    return names, kinds


def dim_of(w, name, kind):
    view, date = SIDES[name]
    if kind[0] == "date":
        return f"{view}.{date}_{kind[1]}"
    return CHANNEL[view] if kind[0] == "channel" else "people.region"


def body(c):
    n = 2000 if c.quick else 12000
    rng = random.Random(c.seed * 13 + 3)
    worlds = []
    for _ in range(max(10, n // 30)):
        w = make_world(rng)
        worlds.append((w, w.db()))
    conns, obs, meta = {}, [], []
    for i in range(n):
        wi = i % len(worlds)
        w, db = worlds[wi]
        dialect = ALL[i % len(ALL)]
        names, kinds = gen(rng, dialect)
        mets = {s: rng.sample(METS[s], rng.choice([1, 1, 2])) for s in names}
        derived, dspec = [], []
        if rng.random() < 0.35:
            name, _, refs, f = rng.choice(DERIVED)
            if all(r.split(".")[0] in names for r in refs):
                for r in refs:
                    s, m = r.split(".")
                    if m not in mets[s]:
                        mets[s].append(m)
                derived.append(name)
                dspec.append((refs, f))
        explicit = [f"{SIDES[s][0]}.{m}" for s in names for m in mets[s]]
        # metrics a derived metric brings along need not be requested
        if derived and rng.random() < 0.5:
            explicit = [e for e in explicit if not any(e == f"{SIDES[r.split('.')[0]][0]}.{r.split('.')[1]}" for r in dspec[0][0])]
        rng.shuffle(explicit)
        metrics = explicit + [f"orders.{d}" for d in derived]
        if not metrics:
            continue
        # how the dimensions are named
        dims = []
        for kd in kinds:
            style = rng.random()
            if kd[0] == "date":
                dims.append(kd[1] if style < 0.6 else dim_of(w, rng.choice(names), kd))
            elif kd[0] == "channel":
                dims.append("channel" if style < 0.6 else dim_of(w, rng.choice(names), kd))
            else:
                dims.append("people.region")
        q = {"metrics": metrics, "dimensions": dims}
        wheres = {s: [] for s in names}
        if kinds and rng.random() < 0.45:
            kd = rng.choice(kinds) if rng.random() < 0.7 or len({SIDES[s][0] for s in names}) != 2 else ("channel", None)
            refs = {s: dim_of(w, s, kd) for s in names}
            if kd[0] == "date":
                ex, v = rng.choice(["greater_than", "less_than", "greater_or_equal_than"]), rng.choice(qgen.EVENT_TS)
                fld = rng.choice([kd[1], refs[rng.choice(names)]])
            elif kd[0] == "channel":
                ex, v = rng.choice([("isin", ["a", "b"]), ("not_equal_to", "b"), ("is_not_null", None), ("isnotin", ["a", "c"]), ("equal_to", "a")])
                fld = rng.choice(["channel", refs[rng.choice(names)]])
            else:
                ex, v, fld = "not_equal_to", "a", "people.region"
            f = {"field": fld, "expression": ex}
            if v is not None:
                f["value"] = v
            q["where"] = [f]
            val = world.const(v)["v"] if kd[0] == "date" else v
            for s in names:
                e = w.dim(refs[s])
                wheres[s] = [world.cmp_(CMP_OPS[ex], e, world.const(v)) if kd[0] == "date" else qgen.atom_for(ex, e, v)]
        sides, index = [], {}
        for s in names:
            view = SIDES[s][0]
            people = any(k[0] == "region" for k in kinds) or ("people.region" in str(q.get("where")))
            sides.append({"plan": JP(view) if people else {"base": view, "joins": []}, "where": {"op": "and", "args": wheres[s]},
                          "dims": [w.dim(dim_of(w, s, kd)) for kd in kinds], "mets": [w.met(f"{view}.{m}") for m in mets[s]]})
            for j, m in enumerate(mets[s]):
                index[f"{s}.{m}"] = {"kind": "ref", "s": len(sides), "m": j + 1}
        dexpr = [f(*[index[r] for r in refs]) for refs, f in dspec]
        having = []
        if rng.random() < 0.25:
            key = rng.choice(sorted(index))
            s, m = key.split(".")
            if f"{SIDES[s][0]}.{m}" in explicit:
                ex, k = rng.choice(list(CMP_OPS)), rng.randint(0, 4)
                q["having"] = [{"field": f"{SIDES[s][0]}.{m}", "expression": ex, "value": k}]
                having = [{"fz": True, "h": {"op": "cmp", "f": CMP_OPS[ex], "m": index[key], "v": enc(k)}}]
        if {SIDES[s][0] for s in names} == {"orders"} or rng.random() < 0.15:
            q["merged_result"] = True       # two dates of one view are merged on request only
        qgen.maybe_text(rng, q, "where")
        qgen.maybe_text(rng, q, "having")
        limit = rng.choice([0, 0, 0, 0, 2])
        if limit:
            q["limit"] = limit
        conn = conns.setdefault((wi, dialect), world.layer(w, dialect))
        o = world.observe(conn, db, dialect, copy.deepcopy(q))
        cols = [x.lower() for x in o["cols"]]
        dimcols = [dim_of(w, s, kd).replace(".", "_") for s in names for kd in kinds]
        metcols = [f"{SIDES[s][0]}_{m}" for s in names for m in mets[s]]
        want = dimcols + metcols + [f"orders_{d}" for d in derived]
        missing = sorted({x for x in want if x not in cols}) + sorted({"extra " + x for x in cols if x not in want})
        rows = [] if missing else [[enc(r[cols.index(x)]) for x in want] for r in o["rows"]]
        obs.append({"w": wi + 1, "sides": sides, "derived": dexpr, "having": having, "limit": limit, "status": o["status"],
                    "missing": missing if o["status"] == "ok" else [], "rows": rows, "mode": "rows"})
        meta.append({"dialect": dialect, "query": q, "sql": o["sql"], "err": o.get("err"), "rows": o["rows"][:8], "n": len(names)})
        c.count("shapes", **{f"sides{len(names)}": 1, "with_null": any(None in r for r in o["rows"])})
    r = tlc.judge("MergedTrace", obs, worlds=[w.spec_tables() for w, _ in worlds])
    c.tlc("merged", r)
    c.traces += len(obs)
    c.count("merged", queries=len(obs), non_empty=sum(bool(o["rows"]) for o in obs))
    for m in meta[:3]:
        c.sample(m["query"])
    for i, clause in r.verdicts:
        key = None
        if clause == "sides joined to the first side only" and meta[i]["n"] >= 3:
            key = "first-side-only"
        elif clause == "dimension label missing" and meta[i]["n"] >= 3:
            key = "label-missing"
        c.violation(clause, meta[i], key=key)
    c.assumptions += ["generated SQL is executed by SQLite through lib/sqlx.py"]


check.main("C13", body)
