"""C16: non-additive metrics use only the first/last date of each window; the other metrics are unaffected."""
import copy
import random

import check
import qgen
import tlc
import world
from qgen import PLAIN, SYM
from world import View, World, agg, cmp_, col, enc

PLAN = {"base": "balances", "joins": [{"view": "people", "kind": "left",
                                       "on": [{"a": col("balances", "person_id"), "b": col("people", "person_id")}]}]}
FRAMES = ("raw", "time", "date", "week", "month", "quarter", "year")
TS = ["2024-01-01T00:00:00", "2024-01-01T10:00:00", "2024-01-07T23:59:59", "2024-01-31T12:00:00", "2024-02-01T00:00:00",
      "2024-02-29T01:00:00", "2024-03-01T00:00:00"]


def non_additive(name, choice="max", groupings=None, aware=True, nulleq=False):
    d = {"name": name, "window_choice": choice}
    if groupings:
        d["window_groupings"] = groupings
    if not aware:
        d["window_aware_of_query_dimensions"] = False
    if nulleq:
        d["nulls_are_equal"] = True
    return d


# name -> (aggregate, column, filters, condition, non-additive definition)
NA = {
    "balances.closing": ("sum", "amount", None, non_additive("asof_raw")),
    "balances.opening": ("sum", "amount", None, non_additive("asof_raw", "min")),
    "balances.closing_day": ("sum", "amount", None, non_additive("asof_date")),
    "balances.closing_month": ("sum", "amount", None, non_additive("balances.asof_month")),
    "balances.closing_by_kind": ("sum", "amount", None, non_additive("asof_date", groupings=["kind"])),
    "balances.opening_by_region": ("sum", "amount", None, non_additive("asof_raw", "min", groupings=["people.region"])),
    "balances.who": ("count_distinct", "person_id", None, non_additive("asof_raw")),
    "balances.cnt": ("count", None, None, non_additive("asof_date")),
    "balances.alone": ("sum", "amount", None, non_additive("asof_raw", aware=False)),
    "balances.alone_by_kind": ("count", None, None, non_additive("asof_date", "min", groupings=["kind"], aware=False)),
    "balances.nulleq": ("sum", "amount", None, non_additive("asof_raw", nulleq=True)),
    "balances.nulleq_alone": ("sum", "amount", None, non_additive("asof_raw", aware=False, nulleq=True)),
    "balances.filt": ("sum", "amount", ("kind", "a"), non_additive("asof_raw")),
    "balances.filt_cnt": ("count", None, ("kind", "a"), non_additive("asof_date", "min", nulleq=True)),
    "balances.avg_closing": ("average", "amount", None, non_additive("asof_date")),
    "balances.max_closing": ("max", "amount", None, non_additive("asof_raw")),
    "balances.min_opening": ("min", "amount", None, non_additive("asof_date", "min")),
    "people.closing": ("sum", "credit", None, non_additive("asof_raw")),
    "people.who": ("count", None, None, non_additive("asof_raw", "min")),
}
PLAIN_METS = ["balances.sum_bal", "balances.n_bal", "balances.avg_bal", "people.n_people", "people.max_credit", "balances.max_asof_raw"]
EXPR = {"balances.change": ("${closing} - ${opening}", "-", "balances.closing", "balances.opening"),
        "balances.share": ("${closing_day} / ${sum_bal}", "/", "balances.closing_day", "balances.sum_bal")}
DIMS = ["balances.kind", "balances.person_id", "balances.asof_date", "balances.asof_week", "balances.asof_month", "people.region",
        "people.asof_month"]
BAL_REFS = ["balances.kind", "balances.amount", "balances.person_id"]


def make_world(rng):
    bal = (
        View("balances", "bal_id", default_date="asof",
             identifiers=[dict(name="bal_id", type="primary", sql="${bal_id}"), dict(name="person_id", type="foreign", sql="${person_id}")])
        .dim("bal_id", "number", primary_key=True).dim("person_id", "number").dim("kind").dim("amount", "number").time("asof", FRAMES)
        .met("sum_bal", "sum", "amount").met("n_bal", "count").met("avg_bal", "average", "amount")
        .met("max_asof_raw", "max", "amount")      # the name the generator uses for its own temporary measure
    )
    ppl = (
        View("people", "person_id", default_date="asof", identifiers=[dict(name="person_id", type="primary", sql="${person_id}")])
        .dim("person_id", "number", primary_key=True).dim("region").dim("credit", "number").time("asof", FRAMES)
        .met("n_people", "count").met("max_credit", "max", "credit")
    )
    views = {"balances": bal, "people": ppl}
    for ref, (a, of, flt, na) in NA.items():
        v, n = ref.split(".")
        kw = {"non_additive_dimension": copy.deepcopy(na)}
        if flt:
            kw["filters"] = [dict(field=flt[0], value=flt[1])]
        cs = [{"op": "mark", "name": "~" + ref}]
        if flt:
            cs.append(cmp_("eq", col(v, flt[0]), flt[1]))
        views[v].met(n, a, of, cond={"op": "and", "args": cs}, **kw)
    for ref, (sql, f, x, y) in EXPR.items():
        v, n = ref.split(".")
        g = lambda r: views[r.split(".")[0]].mets[r.split(".")[1]]  # noqa: E731
        bal.ratio(n, sql, {"kind": "bin", "f": f, "a": g(x), "b": g(y)})
    w = World([bal, ppl])
    np, nb = rng.randint(1, 3), rng.randint(4, 8)
    w.random_data(rng, {"people": np, "balances": nb}, fk={"balances": {"person_id": "people"}}, nulls=0.15, texts=("a", "b", "B"),
                  ts=lambda r: r.choice(TS), ints=(-3, 6))
    for k in range(np):      # every person has a row
        w.data["balances"][k]["person_id"] = k + 1
    return w


def parts(ref):
    """the non-additive metrics a metric is made of"""
    if ref in NA:
        return [ref]
    if ref in EXPR:
        return [r for x in EXPR[ref][2:] for r in parts(x)]
    return []


def mark(w, ref, dims):
    na = NA[ref][3]
    v = ref.split(".")[0]
    q = lambda n: n if "." in n else f"{v}.{n}"  # noqa: E731
    name = q(na["name"])
    wins = [q(g) for g in na.get("window_groupings", [])]
    if na.get("window_aware_of_query_dimensions", True):
        wins += dims
    else:
        wins += [d for d in dims if d.rsplit("_", 1)[0] == name.rsplit("_", 1)[0]]
    return {"name": "~" + ref, "date": w.dim(name), "wins": [w.dim(x) for x in wins], "choice": na["window_choice"],
            "nulleq": na.get("nulls_are_equal", False)}


def body(c):
    n = 2400 if c.quick else 16000
    rng = random.Random(c.seed * 23 + 5)
    worlds = []
    for _ in range(max(10, n // 24)):
        w = make_world(rng)
        worlds.append((w, w.db()))
    conns, obs, meta = {}, [], []
    for i in range(n):
        wi = rng.randrange(len(worlds))
        w, db = worlds[wi]
        dialect = rng.choice(SYM if rng.random() < 0.8 else PLAIN)
        dims = rng.sample([d for d in DIMS if "week" not in d or dialect not in ("BIGQUERY", "SQL_SERVER", "AZURE_SYNAPSE")],
                          rng.choice([0, 1, 1, 2, 2]))     # weeks of those warehouses: C12
        pool = list(NA) + list(EXPR)
        mets = rng.sample(pool, rng.choice([1, 1, 2, 3])) + rng.sample(PLAIN_METS, rng.choice([0, 0, 1, 2]))
        rng.shuffle(mets)
        if dialect not in SYM:
            mets = [m for m in mets if not m.startswith("people.")] or ["balances.closing"]
        if rng.random() < 0.01 and dialect in SYM:
            mets = ["people.closing", "balances.closing"]
        elif any(m in ("people.closing", "people.who") for m in mets):     # known: same-name-two-views
            mets = [m for m in mets if m not in ("balances.closing", "balances.who", "balances.change")]
        q = {"metrics": mets, "dimensions": dims}
        where, having = [], []
        if rng.random() < 0.45:
            q["where"], where = qgen.random_where(rng, w, BAL_REFS + ["balances.asof_raw", "balances.asof_month", "people.region"], depth=1)
        if rng.random() < 0.2:
            hm = rng.choice(mets + [rng.choice(list(NA)[3:17])] if dialect in SYM else mets)
            q["having"], having = qgen.random_having(rng, w, [hm])
        else:
            hm = None
        used = {p for m in mets + ([hm] if hm else []) for p in parts(m)}
        if any(r.startswith("people.") for r in used) and not any(d.startswith("balances.") for d in dims):
            dims.append("balances.kind")       # the window is then over the joined rows in any reading
        twins = [r for r in ("closing", "who") if {"people." + r, "balances." + r} <= used]
        key = "same-name-two-views" if twins else None
        if dialect == "BIGQUERY" and any(any(w.dim(d) in mark(w, r, dims)["wins"] for d in dims) for r in used):
            if i % 5:
                dialect = "SNOWFLAKE"
            else:
                key = key or "bigquery-group-alias"
        limit = rng.choice([0, 0, 0, 0, 2])
        if limit:
            q["limit"] = limit
        qgen.maybe_text(rng, q, "where")
        qgen.maybe_text(rng, q, "having")
        conn = conns.setdefault((wi, dialect), world.layer(w, dialect))
        r = world.observe(conn, db, dialect, copy.deepcopy(q))
        sq = qgen.spec_query(w, q, where=where, having=having, dialect=dialect)
        sq["order"] = qgen.default_order(q, dialect)
        obs.append({"w": wi + 1, "plan": PLAN, "q": sq, "marks": [mark(w, p, dims) for p in sorted(used)], "status": r["status"],
                    "rows": [[enc(x) for x in row] for row in r["rows"]], "cols": [str(x).lower() for x in r["cols"]],
                    "want": [qgen.alias(x) for x in dims + mets]})
        meta.append({"dialect": dialect, "query": q, "sql": r["sql"], "err": r.get("err"), "rows": r["rows"][:6], "key": key})
        c.count("shapes", non_additive=len(used), with_plain=sum(m in PLAIN_METS for m in mets), where=bool(where), having=bool(hm))
    r = tlc.judge("NonAdditiveTrace", obs, worlds=[w.spec_tables() for w, _ in worlds])
    c.tlc("non_additive", r)
    c.traces += len(obs)
    c.count("non_additive", queries=len(obs), non_empty=sum(bool(o["rows"]) for o in obs))
    for m in meta[:3]:
        c.sample(m["query"])
    for i, clause in r.verdicts:
        c.violation(clause, meta[i], key=meta[i].pop("key"))
    c.assumptions += ["generated SQL is executed by SQLite through lib/sqlx.py",
                      "rows whose window (query dimensions and groupings) contains a NULL have no window unless nulls_are_equal"]


check.main("C16", body)
