"""C09: row filters and metric filters select exactly what they say."""
import datetime
import random

import check
import qgen
import world
from qgen import PLAIN, SYM, atom_for, random_atom
from qrun import run_cases
from world import cmp_, col, const, enc

ALL = SYM + PLAIN
TEXTS = ("a", "B", "ab", "bA", "o'b", "A b", "-a", "", "a  b")
PROBE = ("a", "B", "ab", "b", "A", "o'b", "A b", "Ab", "a  b", "a b")


def ftext(e, s, numeric):
    return {"op": "ftext", "e": e, "s": [ord(x) for x in s], "numeric": numeric}


def text_value(rng, typ):
    if typ == "number":
        n = lambda: str(rng.randint(-1, 6))
        return rng.choice(["NULL", "-NULL"] + [op + sp + n() for op in ("<=", ">=", "<>", "!=", "=", ">", "<") for sp in ("", " ")]
                          + [f"{abs(int(n()))}, {abs(int(n()))}", f"{abs(int(n()))}, {abs(int(n()))}, {abs(int(n()))}"]
                          + [f"-{abs(int(n()))}, -{abs(int(n()))}"])
    t = lambda: rng.choice(["a", "B", "ab", "b", "A", "o'b", "A b", "a  b"])
    return rng.choice(["NULL", "-NULL", t(), "-" + t(), f"{t()}, {t()}", f"-{t()}, -{t()}", f"{t()}, {t()}, {t()}",
                       f"%{t()}%", f"{t()}%", f"%{t()}", f"-%{t()}%", f"-{t()}%", f"-%{t()}"])


def measure_worlds(rng, k):
    """worlds whose orders view has measures with random filter-language filters"""
    ws = []
    for _ in range(k):
        w = qgen.std_world(fanouts=True)
        v = w.views["orders"]
        for i in range(6):
            fs, cs = [], []
            for _ in range(rng.choice([1, 1, 2, 3])):
                f = rng.choice(["status", "amount"])
                val = text_value(rng, "number" if f == "amount" else "string")
                fs.append({"field": rng.choice([f, "orders." + f]), "value": val})
                cs.append(ftext(col("orders", f), val, f == "amount"))
            v.met(f"f{i}", rng.choice(["count", "sum", "max", "count_distinct", "average"]), "amount", filters=fs,
                  cond={"op": "and", "args": cs})
        ws.append(w)
    return ws


def body(c):
    n = 4000 if c.quick else 30000
    rng = random.Random(c.seed * 7 + 1)
    worlds = []
    for w in measure_worlds(rng, max(8, n // 60)):
        sizes = {"customers": rng.randint(2, 4), "orders": rng.randint(4, 9), "lines": 2, "regions": 2, "products": 1,
                 "profiles": 1, "tickets": 2}
        w.random_data(rng, sizes, fk=qgen.FK, texts=TEXTS, nulls=0.25)
        for r in w.data["lines"]:
            r["otot"] = None
        worlds.append((w, w.db()))
    cases = []
    for i in range(n):
        wi = i % len(worlds)
        w = worlds[wi][0]
        dialect = ALL[i % len(ALL)]
        kind = rng.choice(["where", "where", "nest", "literal", "having", "havlit", "measure", "group_by", "matches", "fieldref", "dt"])
        vs = ["orders"] if rng.random() < 0.5 else ["orders", "customers"]
        refs = [f"{v}.{d}" for v in vs for d in w.views[v].dims]
        q = {"metrics": ["orders.n_orders", "orders.sum_amount"], "dimensions": [rng.choice(["orders.status", "customers.tier", "orders.order_id"][:1 + len(vs)])] if rng.random() < 0.6 else []}
        if "orders.order_id" in q["dimensions"]:
            q["dimensions"] = []
        case = {"wi": wi, "dialect": dialect, "q": q, "tag": kind}
        if kind == "where":
            ref = rng.choice(refs)
            y, cnd = random_atom(rng, w, ref, texts=PROBE)
            q["where"], case["where"] = [y], [cnd]
        elif kind == "nest":
            q["where"], case["where"] = qgen.random_where(rng, w, refs, depth=2)
        elif kind == "literal":
            a, b, d = "${orders.amount}", "${orders.status}", "${orders.paid}" if rng.random() < 0.5 else "${paid}"
            k = rng.randint(-1, 5)
            lit, cnd = rng.choice([
                (f"{a} > {k} or {b} = 'a'", {"op": "or", "args": [cmp_("gt", col("orders", "amount"), k), cmp_("eq", col("orders", "status"), "a")]}),
                (f"{a} > {k} and {b} = 'a'", {"op": "and", "args": [cmp_("gt", col("orders", "amount"), k), cmp_("eq", col("orders", "status"), "a")]}),
                (f"({a} <= {k} OR {b} is null) and {d}", {"op": "and", "args": [{"op": "or", "args": [cmp_("le", col("orders", "amount"), k), {"op": "null", "e": col("orders", "status")}]}, {"op": "true", "e": col("orders", "paid")}]}),
                (f"{b} = 'a  b'  or {a} = {k}", {"op": "or", "args": [cmp_("eq", col("orders", "status"), "a  b"), cmp_("eq", col("orders", "amount"), k)]}),
                (f"not {a} in (1, 2)", {"op": "notin", "e": col("orders", "amount"), "vs": [enc(1), enc(2)]}),
            ])
            q["where"], case["where"] = lit, [cnd]
        elif kind in ("having", "havlit"):
            q["dimensions"] = q["dimensions"] or ["orders.status"]
            mets = ["orders.n_orders", "orders.max_amount", "orders.avg_amount", "orders.n_big", "orders.f0", "orders.f3"]
            if len(vs) > 1:
                mets += ["customers.max_age"]
            q["metrics"] = rng.sample(mets, 2)
            if kind == "having":
                pool = list(mets) if rng.random() < 0.5 else q["metrics"]
                q["having"], case["having"] = qgen.random_having(rng, w, pool)
            else:
                k = rng.randint(0, 4)
                q["having"] = "${orders.n_orders} > %d or ${orders.max_amount} <= %d" % (k, k)
                case["having"] = [{"op": "or", "args": [{"op": "cmp", "f": "gt", "m": w.met("orders.n_orders"), "v": enc(k)},
                                                        {"op": "cmp", "f": "le", "m": w.met("orders.max_amount"), "v": enc(k)}]}]
            if rng.random() < 0.4:
                q["where"], case["where"] = qgen.random_where(rng, w, refs)
        elif kind == "measure":
            q["metrics"] = [f"orders.f{j}" for j in rng.sample(range(6), 3)] + ["orders.sum_amount"]
            if rng.random() < 0.5 and dialect in SYM:
                q["dimensions"] = ["lines.kind"]
            if rng.random() < 0.4:
                q["where"], case["where"] = qgen.random_where(rng, w, refs)
        elif kind == "group_by":
            m, ex = rng.choice(["orders.n_orders", "orders.max_amount"]), rng.choice(["greater_than", "less_or_equal_than", "equal_to"])
            g = rng.choice(["orders.customer_id", "orders.status"])
            k = rng.randint(1, 3)
            q["where"] = [{"field": m, "expression": ex, "value": k, "group_by": g}]
            case["sub"] = (g, {"op": "cmp", "f": qgen.CMP_OPS[ex], "m": w.met(m), "v": enc(k)})
            case["where"] = []
            if rng.random() < 0.5:
                ys, cs = qgen.random_where(rng, w, refs)
                q["where"] += ys
                case["where"] = cs
        elif kind == "matches":
            t = rng.choice(["orders.status", "orders.amount", "customers.tier"])
            typ = "number" if t.endswith("amount") else "string"
            val = text_value(rng, typ)
            if t == "customers.tier":
                q["dimensions"] = ["customers.vip"]
            if dialect in ("BIGQUERY", "TRINO"):
                case["dialect"] = dialect = "SNOWFLAKE"
            q["where"] = [{"field": t, "expression": "matches", "value": val}]
            case["where"] = [ftext(w.dim(t), val, typ == "number")]
        elif kind == "fieldref":
            ex = rng.choice(["equal_to", "not_equal_to", "greater_than", "less_than"])
            q["where"] = [{"field": "orders.amount", "expression": ex, "value": "orders.customer_id"}]
            case["where"] = [cmp_(qgen.CMP_OPS[ex], col("orders", "amount"), col("orders", "customer_id"))]
            q["dimensions"] = []
        else:
            ex = rng.choice(["greater_than", "less_than", "greater_or_equal_than", "less_or_equal_than"])
            t = rng.choice(qgen.TS_POOL)
            f = rng.choice(["orders.placed_raw", "orders.placed_date", "orders.placed_month"])
            q["where"] = [{"field": f, "expression": ex, "value": datetime.datetime.fromisoformat(t)}]
            case["where"] = [cmp_(qgen.CMP_OPS[ex], w.dim(f), const(t))]
        if "order_id" in str(q["dimensions"]):
            q["dimensions"] = []
        case["order"] = qgen.default_order(q, dialect)
        if "sub" in case:
            g, h = case["sub"]
            case["spec"] = {"subs": [{"e": w.dim(g), "plan": {"base": "orders", "joins": []}, "where": world.TRUE, "dim": w.dim(g), "having": h}]}
        cases.append(case)
    run_cases(c, worlds, cases)
    c.assumptions += ["text values contain no LIKE wildcards inside contains/starts/ends filters",
                      "generated SQL is executed by SQLite through lib/sqlx.py"]


check.main("C09", body)
