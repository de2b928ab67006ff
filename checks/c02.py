"""C02: row-level access filters restrict every query and every subquery.

direct: single queries (joins, literal/OR/structured filters, having, order, group-by filters); TLC computes the rows from
        the declared filters and the user's attribute values.
twin:   merged, cumulative, funnel, non-additive, arbitrary merged, MQL: the restricted user's rows on all the data are
        those of an unrestricted connection on the permitted part of the data (which TLC recomputes)."""
import copy
import random

import check
import qgen
import tlc
import world
from qgen import PLAIN, SYM
from world import col, cmp_, enc

ALL = SYM + PLAIN
ATTRS = ("team", "band", "kindly", "zone")
S_VALUES = ["a", "b", "-a", "a, b", "-a, -b", "a%", "%b", "-%a%", "-NULL", "NULL", "B, c", "ab", "c%"]
N_VALUES = [">2", "<=3", "<>1", "=2", "1, 2, 3", "-1, -2", "-NULL", ">=0", "<2"]


def codes(s):
    return [ord(x) for x in s]


def access_decl(rng, w, candidates, k):
    """choose k filters; sets them on the views; returns the spec's list"""
    out = []
    for view, field in rng.sample(candidates, k):
        fv, fn = field.split(".")
        typ = w.views[fv].dim_types[fn]
        attr = rng.choice(ATTRS[:2] if typ == "string" else ATTRS[2:])
        w.views[view].yaml.setdefault("access_filters", []).append({"field": field, "user_attribute": attr})
        out.append({"view": view, "attr": attr, "e": w.dim(field), "numeric": typ == "number"})
    return out


def random_user(rng):
    if rng.random() < 0.06:
        return None, []
    u = {}
    for a in ATTRS:
        if rng.random() < 0.6:
            u[a] = rng.choice(S_VALUES if a in ATTRS[:2] else N_VALUES)
    if rng.random() < 0.3:
        u["unrelated"] = "zzz"
    return u, [{"attr": a, "s": codes(s)} for a, s in u.items()]


def views_of(refs):
    return sorted({r.split(".")[0] for r in refs})


# ------------------------------------------------------------------ direct
D_CAND = [("orders", "orders.status"), ("orders", "orders.amount"), ("customers", "customers.tier"), ("customers", "customers.age"),
          ("lines", "lines.kind"), ("lines", "lines.qty"), ("tickets", "tickets.prio"), ("regions", "regions.zone"),
          ("orders", "customers.tier"), ("products", "products.brand"), ("profiles", "profiles.lang"), ("lines", "orders.status")]


def direct(c, n):
    rng = random.Random(c.seed * 31 + 2)
    worlds, decl = [], []
    for _ in range(max(10, n // 40)):
        w = qgen.std_world(fanouts=True)
        decl.append(access_decl(rng, w, D_CAND, rng.choice([1, 2, 3, 4])))
        qgen.fill(w, rng, scale=2)
        worlds.append((w, w.db()))
    conns, obs, meta = {}, [], []
    for i in range(n):
        wi = i % len(worlds)
        w, db = worlds[wi]
        dialect = ALL[i % len(ALL)] if rng.random() < 0.5 else SYM[i % len(SYM)]
        # start from a view that has a filter, so most queries are restricted
        dv = rng.choice(decl[wi])["view"]
        vs = [dv]
        while len(vs) < rng.choice([1, 1, 2, 3]):
            nxt = sorted({b if a in vs else a for a, b in qgen.TREE if (a in vs) != (b in vs)})
            vs.append(rng.choice(nxt))
        kind = rng.choice(["plain", "where", "where", "or", "literal", "literal", "having", "group_by", "order", "whereonly", "conds"])
        mets = [f"{v}.{m}" for v in vs[:2] for m in rng.sample(
            [m for m in w.views[v].mets if "order_total" not in m and (m != "qty_minus_price" or dialect in SYM)], 1)]
        dims = [f"{v}.{d}" for v in vs for d in rng.sample([x for x in w.views[v].dims if x != w.views[v].key], rng.choice([0, 1]))]
        q = {"metrics": mets, "dimensions": dims}
        uses = [r for r in mets + dims]
        if "lines.qty_minus_price" in mets:
            uses.append("products.sum_price")
        where, having, subs, subuses, order = [], [], [], [], []
        refs = [f"{v}.{d}" for v in vs for d in w.views[v].dims]
        if kind == "where":
            q["where"], where = qgen.random_where(rng, w, refs)
        elif kind in ("or", "conds"):
            ys, cs = [], []
            for _ in range(2):
                y, cc = qgen.random_atom(rng, w, rng.choice(refs))
                ys.append(y)
                cs.append(cc)
            op = "OR" if kind == "or" else "AND"
            q["where"] = [{"conditions": ys, "logical_operator": op}]
            where = [{"op": op.lower(), "args": cs}]
        elif kind == "literal":
            v = rng.choice(vs)
            ds = [d for d in w.views[v].dims if w.views[v].dim_types[d] == "number"]
            a, b, k = rng.choice(ds), rng.choice(ds), rng.randint(0, 4)
            q["where"] = "${%s.%s} > %d %s ${%s.%s} <= %d" % (v, a, k, rng.choice(["or", "OR", "Or"]), v, b, k)
            where = [{"op": "or", "args": [cmp_("gt", w.views[v].dims[a], k), cmp_("le", w.views[v].dims[b], k)]}]
            uses += [f"{v}.{a}"]
        elif kind == "having":
            q["having"], having = qgen.random_having(rng, w, mets)
        elif kind == "whereonly":       # a view that occurs in a filter only
            nxt = sorted({b for a, b in qgen.TREE if a in vs and b not in vs}) or vs
            v = rng.choice(nxt)
            q["where"], where = qgen.random_where(rng, w, [f"{v}.{d}" for d in w.views[v].dims], depth=0)
        elif kind == "order" and (dims or mets):
            ref = rng.choice(dims + mets)
            q["order_by"] = [{"field": ref, "sort": "desc" if rng.random() < 0.5 else "asc"}]   # the order itself is C17's
        elif kind == "group_by":
            v = "orders"
            if not {"orders", "customers"} & set(vs):
                continue
            g = "orders.customer_id" if "orders" in vs else "customers.customer_id"
            m = rng.choice(["orders.n_orders", "orders.max_amount"])
            ex, k = rng.choice(["greater_than", "less_or_equal_than"]), rng.randint(1, 3)
            q["where"] = [{"field": m, "expression": ex, "value": k, "group_by": g}]
            fv = g.split(".")[0]
            plan = {"base": "orders", "joins": [] if fv == "orders" else [
                {"view": "customers", "kind": "left", "on": [{"a": col("orders", "customer_id"), "b": col("customers", "customer_id")}]}]}
            sviews = views_of([m, g])
            # a filter declared on a field of another view joins that view into the subquery
            for d in decl[wi]:
                if d["view"] == "orders" and d["e"]["view"] == "customers" and fv == "orders":
                    plan["joins"] = [{"view": "customers", "kind": "left",
                                      "on": [{"a": col("orders", "customer_id"), "b": col("customers", "customer_id")}]}]
            subs = [{"e": w.dim(g), "plan": plan, "where": world.TRUE, "dim": w.dim(g),
                     "having": {"op": "cmp", "f": qgen.CMP_OPS[ex], "m": w.met(m), "v": enc(k)}}]
            subuses = [sviews]
        for y in _flat(q.get("where")):
            if "group_by" not in y:
                uses.append(y["field"])
        uses += [y["field"] for y in _flat(q.get("having"))]
        user, uspec = random_user(rng)
        conn = conns.setdefault((wi, dialect), world.layer(w, dialect))
        conn.set_user(user) if user is not None else conn.project.set_user(None)
        o = world.observe(conn, db, dialect, copy.deepcopy(q))
        if o["status"] == "raised JoinError" or (o["status"].startswith("raised") and "merge" in (o.get("err") or "")):
            c.count("direct", no_join_path=1)
            continue
        plan = world.plan_of(o["sql"]) if o["sql"] else None
        if o["status"] == "ok" and plan is None:
            o["status"] = "unreadable plan"
        uviews = views_of(uses)
        if o["status"] == "ok":
            missing = [a for a in decl[wi] if a["view"] in uviews and a["attr"] in (user or {})
                       and a["e"]["view"] not in [plan["base"]] + [j["view"] for j in plan["joins"]]]
            if missing:
                o["status"] = "the filtered field's view is not joined"
        sq = qgen.spec_query(w, q, where=where, having=having, dialect=dialect, order=order)
        sq["subs"] = subs
        obs.append({"kind": "direct", "w": wi + 1, "plan": plan or {"base": "orders", "joins": []}, "q": sq, "status": o["status"],
                    "rows": [[enc(x) for x in r] for r in o["rows"]], "cols": [str(x).lower() for x in o["cols"]],
                    "want": [qgen.alias(x) for x in dims + mets], "access": decl[wi], "user": uspec, "uses": uviews,
                    "subuses": subuses})
        meta.append({"tag": kind, "dialect": dialect, "query": q, "user": user, "filters": [
            (v, y.yaml.get("access_filters")) for v, y in w.views.items() if y.yaml.get("access_filters")], "sql": o["sql"], "err": o.get("err")})
    judge(c, "direct", obs, meta, worlds)


def _flat(ys):
    if isinstance(ys, str) or not ys:
        return []
    out = []
    for y in ys:
        out += _flat(y["conditions"]) if "conditions" in y else [y]
    return out


def judge(c, name, obs, meta, worlds):
    r = tlc.judge("AccessTrace", obs, worlds=[w.spec_tables() for w, _ in worlds])
    c.tlc(name, r)
    c.traces += len(obs)
    c.count(name, queries=len(obs), restricted=sum(bool(m["user"]) for m in meta), non_empty=sum(bool(o["rows"]) for o in obs))
    for m in meta[:2]:
        c.sample({k: m[k] for k in ("tag", "query", "user")})
    for i, clause in r.verdicts:
        c.violation(clause, meta[i])


# ------------------------------------------------------------------ twin
T_CAND = [("orders", "orders.status"), ("orders", "orders.amount"), ("sessions", "sessions.device"), ("sessions", "sessions.dur"),
          ("clicks", "clicks.place"), ("people", "people.region"), ("clicks", "clicks.cost")]
EXTRA = [
    dict(name="cum_amount", field_type="measure", type="cumulative", measure="sum_amount"),
    dict(name="cum_orders", field_type="measure", type="cumulative", measure="n_orders"),
    dict(name="ratio", field_type="measure", type="number", sql="${sum_amount} / nullif(${sessions.n_sessions}, 0)", is_merged_result=True),
    dict(name="last_amount", field_type="measure", type="sum", sql="${amount}",
         non_additive_dimension=dict(name="placed_raw", window_choice="max")),
    dict(name="first_amount", field_type="measure", type="sum", sql="${amount}",
         non_additive_dimension=dict(name="placed_raw", window_choice="min", window_groupings=["person_id"])),
    dict(name="grow", field_type="measure", type="number", sql="${cum_amount} / nullif(${n_orders}, 0)"),
]
O_PEOPLE = {"base": "orders", "joins": [{"view": "people", "kind": "left",
                                         "on": [{"a": col("orders", "person_id"), "b": col("people", "person_id")}]}]}


def alone(v):
    return {"view": v, "plan": {"base": v, "joins": []}, "uses": [v]}


def composite(rng, dialect):
    """(tag, query, sides)"""
    kinds = ["merged", "merged3", "mapped", "ratio", "nonadd", "nonadd2", "arbitrary", "arbitrary2", "mql", "mqlmerge",
             "funnelfilter", "funnel", "derived", "groupfilter2"]
    if dialect in ("SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES"):
        kinds += ["cumulative", "cumulative2", "cumwhere", "growth"]
    k = rng.choice(kinds)
    with_people = rng.random() < 0.3
    osides = {"view": "orders", "plan": O_PEOPLE, "uses": ["orders", "people"]} if with_people else alone("orders")
    pd = ["people.region"] if with_people else []
    t = rng.choice(["date", "month", "quarter"])
    w = None
    if k == "merged":
        q = dict(metrics=["orders.sum_amount", "sessions.n_sessions"], dimensions=[t])
        if rng.random() < 0.4:
            q["where"] = [{"field": t if t != "date" else "month", "expression": "greater_than", "value": "2024-01-15T00:00:00"}]
            q["where"] = [{"field": "channel", "expression": "isin", "value": ["a", "b"]}]
        return k, q, [alone("orders"), alone("sessions")]
    if k == "merged3":
        ms = ["orders.n_orders", "sessions.sum_dur", "clicks.n_clicks"]
        rng.shuffle(ms)
        return k, dict(metrics=ms, dimensions=[t]), [alone("orders"), alone("sessions"), alone("clicks")]
    if k == "mapped":
        return k, dict(metrics=["sessions.sum_dur", "clicks.sum_cost"], dimensions=["channel", t],
                       where=[{"field": "channel", "expression": "not_equal_to", "value": "b"}]), [alone("sessions"), alone("clicks")]
    if k == "ratio":
        return k, dict(metrics=["orders.ratio"], dimensions=["channel"]), [alone("orders"), alone("sessions")]
    if k in ("nonadd", "nonadd2"):
        q = dict(metrics=["orders.last_amount" if k == "nonadd" else "orders.first_amount", "orders.n_orders"],
                 dimensions=rng.choice([[], ["orders.status"], ["orders.placed_month"]]) + pd)
        if rng.random() < 0.4:
            q["where"] = [{"field": "orders.amount", "expression": "greater_than", "value": 1}]
        return k, q, [osides]
    if k == "arbitrary":
        return k, dict(merged_queries=[
            {"metrics": ["orders.n_orders"], "dimensions": ["orders.status"]},
            {"metrics": ["sessions.n_sessions"], "dimensions": ["sessions.device"],
             "join_fields": [{"field": "sessions.device", "source_field": "orders.status"}]}]), [alone("orders"), alone("sessions")]
    if k == "arbitrary2":
        return k, dict(merged_queries=[
            {"metrics": ["clicks.sum_cost"], "dimensions": ["clicks.hit_month"]},
            {"metrics": ["orders.sum_amount"], "dimensions": ["orders.placed_month"] + pd[:0], "where": [
                {"field": "orders.amount", "expression": "greater_than", "value": 0}],
             "join_fields": [{"field": "orders.placed_month", "source_field": "clicks.hit_month"}]}]), [alone("orders"), alone("clicks")]
    if k == "mql":
        txt = rng.choice(["orders.n_orders, orders.sum_amount BY orders.status", "orders.sum_amount BY orders.placed_month WHERE ${orders.amount} > 1 OR ${orders.amount} = 0",
                          "orders.max_amount BY orders.status WHERE ${orders.amount} <= 4 HAVING ${orders.max_amount} > 0"])
        return k, dict(sql=f"SELECT * FROM MQL({txt})"), [alone("orders")]
    if k == "mqlmerge":
        return k, dict(sql=f"SELECT * FROM MQL(orders.sum_amount, sessions.n_sessions BY {t})"), [alone("orders"), alone("sessions")]
    steps = [[{"field": "orders.status", "expression": "equal_to", "value": "a"}],
             [{"field": "orders.status", "expression": rng.choice(["equal_to", "not_equal_to"]), "value": "b"}]]
    f = {"steps": steps, "within": {"value": rng.choice([3, 40]), "unit": "days"}}
    if k == "funnel":
        q = dict(metrics=[rng.choice(["orders.n_orders", "orders.people", "orders.sum_amount"])], dimensions=pd, funnel=f)
        if rng.random() < 0.5:
            q["where"] = [{"field": "orders.amount", "expression": "greater_than", "value": 0}]
        return k, q, [osides]
    if k == "funnelfilter":
        return k, dict(metrics=["orders.n_orders"], dimensions=["orders.status"], where=[
            {"funnel": f, "field": "orders.person_id", "expression": rng.choice(["converted", "dropped_off"]), "from": 1, "to": 2}]), [alone("orders")]
    if k == "derived":
        return k, dict(metrics=["orders.sum_amount"], dimensions=["people.region", "orders.placed_week"]), [
            {"view": "orders", "plan": O_PEOPLE, "uses": ["orders", "people"]}]
    if k == "groupfilter2":
        return k, dict(metrics=["orders.sum_amount"], dimensions=["orders.status"], where=[
            {"field": "orders.n_orders", "expression": "greater_than", "value": 1, "group_by": "orders.person_id"},
            {"field": "orders.max_amount", "expression": "greater_than", "value": 2, "group_by": "orders.person_id"}],
            having=[{"field": "orders.sum_amount", "expression": "greater_than", "value": 0}]), [alone("orders")]
    dd = f"orders.placed_{t}"
    if k == "cumulative":
        return k, dict(metrics=["orders.cum_amount"], dimensions=[dd]), [alone("orders")]
    if k == "cumulative2":
        return k, dict(metrics=["orders.cum_amount", "orders.cum_orders", "orders.n_orders"], dimensions=[dd]), [alone("orders")]
    if k == "cumwhere":
        return k, dict(metrics=["orders.cum_orders"], dimensions=[dd], where=[
            {"field": "orders.amount", "expression": "greater_than", "value": 1}]), [alone("orders")]
    return k, dict(metrics=["orders.grow", "orders.n_orders"], dimensions=[dd]), [alone("orders")]


def twin(c, n):
    rng = random.Random(c.seed * 77 + 5)
    worlds, decl = [], []
    for _ in range(max(8, n // 30)):
        w = qgen.event_world(extra_orders=EXTRA)
        decl.append(access_decl(rng, w, T_CAND, rng.choice([2, 3, 4])))
        qgen.fill_events(w, rng, n=(4, 8))
        worlds.append((w, w.db(spine=("2023-12-01", "2024-05-15"))))
    conns, obs, meta, dbs = {}, [], [], {}
    dialects = ("SNOWFLAKE", "POSTGRES", "BIGQUERY", "REDSHIFT", "DUCK_DB", "DATABRICKS")
    for i in range(n):
        wi = i % len(worlds)
        w, db = worlds[wi]
        dialect = dialects[i % len(dialects)]
        tag, q, sides = composite(rng, dialect)
        user, uspec = random_user(rng)
        if "funnel" not in str(q.get("where")):
            qgen.maybe_text(rng, q, "where")
        qgen.maybe_text(rng, q, "having")
        conn = conns.setdefault((wi, dialect), world.layer(w, dialect))
        free = conns.setdefault((wi, dialect, "free"), world.layer(w, dialect))
        # the permitted part of the data (checked again by TLC)
        kept = []
        small = {v: list(rows) for v, rows in w.data.items()}
        for s in sides:
            k = [j for j, row in enumerate(w.data[s["view"]]) if permitted(w, row, s, decl[wi], user or {})]
            small[s["view"]] = [w.data[s["view"]][j] for j in k]
            kept.append([j + 1 for j in k])
        w2 = copy.copy(w)
        w2.data = small
        db2 = w2.db(spine=("2023-12-01", "2024-05-15"))
        conn.set_user(user) if user is not None else conn.project.set_user(None)
        a = world.observe(conn, db, dialect, copy.deepcopy(q))
        b = world.observe(free, db2, dialect, copy.deepcopy(q))
        db2.close()
        obs.append({"kind": "twin", "w": wi + 1, "sides": sides, "kept": kept, "access": decl[wi], "user": uspec,
                    "status": a["status"], "twinstatus": b["status"], "cols": a["cols"], "twincols": b["cols"],
                    "rows": [[enc(x) for x in r] for r in a["rows"]], "twinrows": [[enc(x) for x in r] for r in b["rows"]]})
        meta.append({"tag": tag, "dialect": dialect, "query": q, "user": user, "decl": [(x["view"], x["attr"]) for x in decl[wi]],
                     "sql": a["sql"], "err": a.get("err") or b.get("err")})
        c.count("kinds", **{tag: 1})
    judge(c, "twin", obs, meta, worlds)


def permitted(w, row, side, decl, user):
    person = next((p for p in w.data["people"] if p["person_id"] == row.get("person_id")), None) if side["view"] == "orders" else None
    for d in decl:
        if d["view"] not in side["uses"] or d["attr"] not in user:
            continue
        v = (row if d["e"]["view"] == side["view"] else (person or {})).get(d["e"]["col"])
        if not holds(user[d["attr"]], v, d["numeric"]):
            return False
    return True


def holds(s, v, numeric):
    """plain reading of the filter values used here (TLC recomputes the result)"""
    if s == "NULL":
        return v is None
    if v is None:
        return False
    if s == "-NULL":
        return True
    items = s.split(", ")
    if len(items) > 1:
        neg = all(x.startswith("-") for x in items)
        vals = [x.lstrip("-") for x in items]
        return (str(v) not in vals) if neg else (str(v) in vals)
    if numeric:
        for op, f in (("<=", v.__le__), (">=", v.__ge__), ("<>", v.__ne__), ("=", v.__eq__), (">", v.__gt__), ("<", v.__lt__)):
            if s.startswith(op):
                return f(int(s[len(op):]))
    neg = s.startswith("-")
    t = s[1:] if neg else s
    lo = v.lower()
    if t.startswith("%") and t.endswith("%"):
        r = t[1:-1].lower() in lo
    elif t.endswith("%"):
        r = lo.startswith(t[:-1].lower())
    elif t.startswith("%"):
        r = lo.endswith(t[1:].lower())
    else:
        r = v == t
    return r != neg


def body(c):
    direct(c, 1500 if c.quick else 5000)
    twin(c, 720 if c.quick else 2400)
    c.assumptions += ["access filter fields carry no further access filters of their own view",
                      "generated SQL is executed by SQLite through lib/sqlx.py"]


check.main("C02", body)
