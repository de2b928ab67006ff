"""Standard worlds and seeded generation of queries together with their meaning."""
import random

import sqlx
from world import TRUE, View, World, agg, cmp_, col, const, enc, TS_POOL

SYM = ("SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES", "DUCK_DB")
PLAIN = ("DATABRICKS", "DRUID", "SQL_SERVER", "AZURE_SYNAPSE", "TRINO")
MEDIAN_OK = ("SNOWFLAKE", "REDSHIFT", "DUCK_DB", "DATABRICKS")


def bin_(f, a, b):
    return {"kind": "bin", "f": f, "a": a, "b": b}


def std_world(fanouts=True, week_start=None, model=None, extra=None):
    """regions <- customers <- orders <- lines -> products; customers <- tickets; customers - profiles (1:1)"""
    ws = week_start or "monday"
    fo = (lambda *names: {"allowed_fanouts": list(names)}) if fanouts else (lambda *names: {})
    regions = (
        View("regions", "region_id", identifiers=[dict(name="region_id", type="primary", sql="${region_id}")])
        .dim("region_id", "number", primary_key=True).dim("zone").met("n_regions", "count")
    )
    customers = (
        View("customers", "customer_id", default_date="created",
             identifiers=[dict(name="customer_id", type="primary", sql="${customer_id}", **fo("orders", "tickets")),
                          dict(name="region_id", type="foreign", sql="${region_id}")])
        .dim("customer_id", "number", primary_key=True).dim("region_id", "number").dim("tier").dim("age", "number")
        .dim("vip", "yesno").time("created", week_start=ws)
        .met("n_customers", "count", "customer_id").met("sum_age", "sum", "age").met("avg_age", "average", "age")
        .met("max_age", "max", "age").met("min_age", "min", "age").met("tiers", "count_distinct", "tier")
        .met("sum_age_a", "sum", "age", filters=[dict(field="tier", value="a")],
             cond=cmp_("eq", col("customers", "tier"), "a"))
    )
    profiles = (
        View("profiles", "customer_id", identifiers=[dict(name="customer_id", type="primary", sql="${customer_id}")])
        .dim("customer_id", "number", primary_key=True).dim("lang").dim("score", "number")
        .met("n_profiles", "count").met("sum_score", "sum", "score")
    )
    orders = (
        View("orders", "order_id", default_date="placed",
             identifiers=[dict(name="order_id", type="primary", sql="${order_id}", **fo("lines")),
                          dict(name="customer_id", type="foreign", sql="${customer_id}")])
        .dim("order_id", "number", primary_key=True).dim("customer_id", "number").dim("status").dim("amount", "number")
        .dim("paid", "yesno").time("placed", week_start=ws)
        .met("n_orders", "count").met("sum_amount", "sum", "amount").met("avg_amount", "average", "amount")
        .met("max_amount", "max", "amount").met("min_amount", "min", "amount")
        .met("statuses", "count_distinct", "status").met("n_amounts", "count", "amount")
        .met("n_big", "count", "amount", filters=[dict(field="amount", value=">2"), dict(field="status", value="-B")],
             cond={"op": "and", "args": [cmp_("gt", col("orders", "amount"), 2), cmp_("ne", col("orders", "status"), "B")]})
    )
    orders.ratio("amount_per_order", "${sum_amount} / nullif(${n_orders}, 0)",
                 bin_("/", orders.mets["sum_amount"], orders.mets["n_orders"]))
    lines = (
        View("lines", "line_id",
             identifiers=[dict(name="line_id", type="primary", sql="${line_id}"),
                          dict(name="order_id", type="foreign", sql="${order_id}"),
                          dict(name="product_id", type="foreign", sql="${product_id}")])
        .dim("line_id", "number", primary_key=True).dim("order_id", "number").dim("product_id", "number")
        .dim("qty", "number").dim("kind").met("n_lines", "count").met("sum_qty", "sum", "qty").met("avg_qty", "average", "qty")
    )
    products = (
        View("products", "product_id", identifiers=[dict(name="product_id", type="primary", sql="${product_id}")])
        .dim("product_id", "number", primary_key=True).dim("brand").dim("price", "number")
        .met("n_products", "count").met("sum_price", "sum", "price").met("max_price", "max", "price")
    )
    lines.dim("otot", "number")
    lines.yaml["fields"].append(dict(name="order_total", field_type="measure", type="sum_distinct", sql="${otot}",
                                     sql_distinct_key="${order_id}"))
    lines.mets["order_total"] = dict(agg("sum_distinct", "lines", col("lines", "otot")), k=col("lines", "order_id"))
    lines.yaml["fields"].append(dict(name="avg_order_total", field_type="measure", type="average_distinct", sql="${otot}",
                                     sql_distinct_key="${order_id}"))
    lines.mets["avg_order_total"] = dict(agg("average_distinct", "lines", col("lines", "otot")), k=col("lines", "order_id"))
    lines.ratio("qty_minus_price", "${sum_qty} - ${products.sum_price}",
                bin_("-", lines.mets["sum_qty"], products.mets["sum_price"]))
    tickets = (
        View("tickets", "ticket_id",
             identifiers=[dict(name="ticket_id", type="primary", sql="${ticket_id}"),
                          dict(name="customer_id", type="foreign", sql="${customer_id}")])
        .dim("ticket_id", "number", primary_key=True).dim("customer_id", "number").dim("prio").dim("mins", "number")
        .met("n_tickets", "count").met("sum_mins", "sum", "mins").met("avg_mins", "average", "mins")
    )
    w = World([regions, customers, profiles, orders, lines, products, tickets], model=model)
    return w


def same_keys(w):
    """the same model, with the primary key field of every view called id"""
    for v in w.views.values():
        for f in v.yaml["fields"]:
            if f["name"] == v.key:
                f["name"] = "id"
            if f.get("sql") == "${%s}" % v.key:
                f["sql"] = "${id}"
        for i in v.yaml["identifiers"]:
            if i["type"] == "primary":
                i["sql"] = "${id}"
        v.dims = {("id" if k == v.key else k): e for k, e in v.dims.items()}
        v.dim_types = {("id" if k == v.key else k): e for k, e in v.dim_types.items()}
    return w


FK = {
    "customers": {"region_id": "regions"}, "profiles": {"customer_id": "customers"}, "orders": {"customer_id": "customers"},
    "lines": {"order_id": "orders", "product_id": "products"}, "tickets": {"customer_id": "customers"},
}
TREE = [("customers", "regions"), ("customers", "profiles"), ("orders", "customers"), ("lines", "orders"),
        ("lines", "products"), ("tickets", "customers")]


def fill(w, rng, scale=1):
    sizes = {n: rng.randint(1, 3 + scale) for n in w.views}
    for big in ("orders", "lines", "tickets"):
        if big in sizes:
            sizes[big] = rng.randint(2, 5 + scale)
    w.random_data(rng, sizes, fk=FK)
    for r in w.data.get("lines", []):      # a value copied from the order: the same on every line of the order
        r["otot"] = None if r["order_id"] in (None, 2) else r["order_id"] * 3 - 4
    return w


# ------------------------------------------------------------------ conditions
TEXT_OPS = {
    "contains": ("contains", False, False), "does_not_contain": ("contains", False, True),
    "contains_case_insensitive": ("contains", True, False), "does_not_contain_case_insensitive": ("contains", True, True),
    "starts_with": ("starts", False, False), "ends_with": ("ends", False, False),
    "does_not_start_with": ("starts", False, True), "does_not_end_with": ("ends", False, True),
    "starts_with_case_insensitive": ("starts", True, False), "ends_with_case_insensitive": ("ends", True, False),
    "does_not_start_with_case_insensitive": ("starts", True, True),
    "does_not_end_with_case_insensitive": ("ends", True, True),
}
CMP_OPS = {"equal_to": "eq", "not_equal_to": "ne", "less_than": "lt", "less_or_equal_than": "le",
           "greater_than": "gt", "greater_or_equal_than": "ge"}


def atom_for(expression, e, value):
    """meaning of one structured filter on the row expression e"""
    if expression in CMP_OPS:
        return cmp_(CMP_OPS[expression], e, value)
    if expression in TEXT_OPS:
        f, ci, neg = TEXT_OPS[expression]
        c = {"op": "text", "f": f, "ci": ci, "e": e, "v": enc(value)}
        return {"op": "not", "c": c} if neg else c
    if expression == "is_null":
        return {"op": "null", "e": e}
    if expression == "is_not_null":
        return {"op": "notnull", "e": e}
    if expression == "isin":
        return {"op": "in", "e": e, "vs": [enc(x) for x in value]}
    if expression == "isnotin":
        return {"op": "notin", "e": e, "vs": [enc(x) for x in value]}
    if expression == "boolean_true":
        return {"op": "true", "e": e}
    if expression == "boolean_false":
        return {"op": "false", "e": e}
    raise KeyError(expression)


def random_atom(rng, w, ref, texts=("a", "B", "ab", "b", "A")):
    v, n = ref.split(".")
    typ, e = w.views[v].dim_types[n], w.views[v].dims[n]
    if typ == "string":
        ex = rng.choice(list(TEXT_OPS) + ["equal_to", "not_equal_to", "isin", "isnotin", "is_null", "is_not_null"])
        val = rng.sample(list(texts), 2) if ex in ("isin", "isnotin") else rng.choice(texts)
    elif typ == "number":
        ex = rng.choice(list(CMP_OPS) + ["isin", "isnotin", "is_null", "is_not_null"])
        val = [rng.randint(-2, 6), rng.randint(0, 4)] if ex in ("isin", "isnotin") else rng.randint(-1, 5)
    elif typ == "yesno":
        ex = rng.choice(["boolean_true", "boolean_false", "equal_to", "is_null", "is_not_null"])
        if ex == "equal_to":
            b = rng.choice([True, False])
            return ({"field": ref, "expression": "equal_to", "value": b},
                    {"op": "true" if b else "false", "e": e})
        val = None
    else:
        ex = rng.choice(list(CMP_OPS) + ["is_null", "is_not_null"])
        val = rng.choice(TS_POOL)
        if ex not in ("is_null", "is_not_null"):
            return {"field": ref, "expression": ex, "value": val}, cmp_(CMP_OPS[ex], e, const(val))
    y = {"field": ref, "expression": ex}
    if ex not in ("is_null", "is_not_null", "boolean_true", "boolean_false"):
        y["value"] = val
    return y, atom_for(ex, e, val)


def random_where(rng, w, refs, depth=1):
    """list of yaml filters (ANDed) and the condition"""
    ys, cs = [], []
    for _ in range(rng.choice([1, 1, 2])):
        if depth > 0 and rng.random() < 0.35:
            op = rng.choice(["AND", "OR"])
            sub = [random_where(rng, w, refs, depth - 1) for _ in range(2)]
            yy = [x for s in sub for x in s[0]]
            cc = [x for s in sub for x in s[1]]
            g = {"conditions": yy, "logical_operator": op}
            if op == "AND" and rng.random() < 0.5:
                del g["logical_operator"]      # the default
            ys.append(g)
            cs.append({"op": op.lower(), "args": cc})
        else:
            y, c = random_atom(rng, w, rng.choice(refs))
            ys.append(y)
            cs.append(c)
    return ys, cs


def random_having(rng, w, mets):
    ys, cs = [], []
    for _ in range(rng.choice([1, 1, 2])):
        m = rng.choice(mets)
        ex = rng.choice(list(CMP_OPS) + ["is_null", "is_not_null"])
        y = {"field": m, "expression": ex}
        spec = w.met(m)
        if ex in ("is_null", "is_not_null"):
            cs.append({"op": "null" if ex == "is_null" else "notnull", "m": spec})
        else:
            y["value"] = rng.randint(-1, 6)
            cs.append({"op": "cmp", "f": CMP_OPS[ex], "m": spec, "v": enc(y["value"])})
        ys.append(y)
    if len(ys) == 2 and rng.random() < 0.5:
        return [{"conditions": ys, "logical_operator": "OR"}], [{"op": "or", "args": cs}]
    return ys, cs


WRITTEN = {"equal_to": "=", "not_equal_to": "<>", "less_than": "<", "less_or_equal_than": "<=", "greater_than": ">",
            "greater_or_equal_than": ">="}


def as_text(rng, ys, op="AND"):
    """the same conditions as one text, or None where the text would need more than a comparison"""
    parts = []
    for y in ys:
        f, ex, v = "${%s}" % y.get("field"), y.get("expression"), y.get("value")
        lit = lambda x: str(x) if isinstance(x, (int, float)) else "'" + x.replace("'", "''") + "'"  # noqa: E731
        simple = lambda x: isinstance(x, (int, float, str)) and not isinstance(x, bool)  # noqa: E731
        if "conditions" in y:
            t = as_text(rng, y["conditions"], y.get("logical_operator", "AND"))
            if t is None:
                return None
            parts.append(f"({t})")
        elif ex in WRITTEN and simple(v) and not (isinstance(v, str) and v.startswith("${")):
            parts.append(f + rng.choice([" %s ", "%s"]) % WRITTEN[ex] + lit(v))
        elif ex in ("is_null", "is_not_null"):
            parts.append(f + (" is null" if ex == "is_null" else " IS NOT NULL"))
        elif ex in ("isin", "isnotin") and v and all(simple(x) for x in v):
            parts.append(f + rng.choice([" in (", " IN ("] if ex == "isin" else [" not in (", " NOT IN ("]) + ", ".join(map(lit, v)) + ")")
        else:
            return None
    return rng.choice([" %s ", "\n%s "]).__mod__(op if rng.random() < 0.5 else op.lower()).join(parts)


def maybe_text(rng, q, key, share=0.35):
    """sometimes the conditions of q[key] as text"""
    if q.get(key) and rng.random() < share:
        t = as_text(rng, q[key])
        if t is not None:
            q[key] = t
            return True
    return False


def alias(ref):
    return ref.replace(".", "_")


def spec_query(w, q, where=(), having=(), dialect="SNOWFLAKE", nogroup=False, order=None):
    """the TLA+ side of a query dict(metrics, dimensions, limit, order_by)"""
    dims, mets = q.get("dimensions", []), q.get("metrics", [])
    return {
        "where": {"op": "and", "args": list(where)}, "dims": [w.dim(d) for d in dims],
        "mets": [] if nogroup else [w.met(m) for m in mets], "having": list(having),
        "mode": "own" if dialect in SYM else "rows", "nogroup": nogroup, "limit": q.get("limit") or 0,
        "order": order or [], "raws": [], "subs": [],
    }


def default_order(q, dialect):
    if dialect in ("SNOWFLAKE", "REDSHIFT", "DUCK_DB"):
        nd = len(q.get("dimensions", []))
        if q.get("metrics"):
            return [{"i": nd + 1, "desc": True}]
        if nd:
            return [{"i": 1, "desc": False}]
    return []


def subtree(rng, k):
    """k views connected in TREE"""
    vs = [rng.choice(sorted({v for e in TREE for v in e}))]
    while len(vs) < k:
        nxt = [b if a in vs else a for a, b in TREE if (a in vs) != (b in vs)]
        vs.append(rng.choice(sorted(set(nxt))))
    return vs


# ------------------------------------------------------------------ a world for the composite query kinds
def event_world(tz=None, filters=None, shared_people=False, shipped=False, model=None, extra_orders=()):
    """orders, sessions (no join path between them), balances (non-additive) and people (joined to orders)"""
    orders = (
        View("orders", "order_id", default_date="placed",
             identifiers=[dict(name="order_id", type="primary", sql="${order_id}"),
                          dict(name="person_id", type="foreign", sql="${person_id}")])
        .dim("order_id", "number", primary_key=True).dim("person_id", "number", tags=["customer"]).dim("status").dim("amount", "number")
        .time("placed", ("raw", "time", "date", "week", "month", "quarter", "year"))
        .met("n_orders", "count").met("sum_amount", "sum", "amount").met("avg_amount", "average", "amount")
        .met("max_amount", "max", "amount").met("people", "count_distinct", "person_id")
    )
    sessions = (
        View("sessions", "session_id", default_date="seen",
             identifiers=[dict(name="session_id", type="primary", sql="${session_id}")])
        .dim("session_id", "number", primary_key=True).dim("device").dim("dur", "number")
        .time("seen", ("raw", "time", "date", "week", "month", "quarter", "year"))
        .met("n_sessions", "count").met("sum_dur", "sum", "dur").met("max_dur", "max", "dur")
    )
    clicks = (
        View("clicks", "click_id", default_date="hit",
             identifiers=[dict(name="click_id", type="primary", sql="${click_id}")])
        .dim("click_id", "number", primary_key=True).dim("place").dim("cost", "number")
        .time("hit", ("raw", "time", "date", "week", "month", "quarter", "year"))
        .met("n_clicks", "count").met("sum_cost", "sum", "cost")
    )
    people = (
        View("people", "person_id", identifiers=[dict(name="person_id", type="primary", sql="${person_id}")])
        .dim("person_id", "number", primary_key=True).dim("region").met("n_people", "count")
    )
    if shipped:
        orders.time("shipped", ("raw", "time", "date", "week", "month", "quarter", "year"))
        orders.met("n_shipped", "count", canon_date="shipped").met("shipped_amount", "sum", "amount", canon_date="shipped")
    if shared_people:
        sessions.dim("person_id", "number")
        sessions.yaml["identifiers"].append(dict(name="person_id", type="foreign", sql="${person_id}"))
    m = {"mappings": {"channel": {"fields": ["orders.status", "sessions.device", "clicks.place"], "group_label": "x"}}}
    m.update(model or {})
    w = World([orders, sessions, clicks, people], model=m)
    for v in extra_orders:
        orders.yaml["fields"].append(v)
    if filters:
        for view, fs in filters.items():
            w.views[view].yaml["access_filters"] = fs
    return w


EVENT_FK = {"orders": {"person_id": "people"}, "sessions": {"person_id": "people"}}
EVENT_TS = ["2024-01-01T00:00:00", "2024-01-01T10:00:00", "2024-01-02T00:00:00", "2024-01-07T23:59:59", "2024-01-08T00:00:00",
            "2024-01-31T12:00:00", "2024-02-01T00:00:00", "2024-02-29T01:00:00", "2024-03-01T00:00:00", "2024-04-01T00:00:00"]


def fill_events(w, rng, n=(3, 7), nulls=0.15, ts=EVENT_TS, texts=("a", "b", "c")):
    sizes = {v: rng.randint(*n) for v in w.views}
    sizes["people"] = rng.randint(2, 4)
    w.random_data(rng, sizes, fk=EVENT_FK, nulls=nulls, texts=texts, ts=lambda r: r.choice(ts), ints=(0, 6))
    for name, v in w.views.items():
        d = v.yaml.get("default_date")
        for r in w.data[name]:
            if d and r.get(d) is None:
                r[d] = rng.choice(ts)
    return w
