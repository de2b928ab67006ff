"""C18: MQL text and structured arguments ask the same question."""
import copy
import random
import re

import check
import qgen
import tlc
import world
from world import agg, cmp_, col, enc

DIALECTS = ["SNOWFLAKE", "REDSHIFT", "POSTGRES", "BIGQUERY", "DUCK_DB", "DATABRICKS", "TRINO", "DRUID", "SNOWFLAKE", "SQL_SERVER"]
OPS = {"eq": ("=", "equal_to"), "ne": ("<>", "not_equal_to"), "lt": ("<", "less_than"), "le": ("<=", "less_or_equal_than"),
       "gt": (">", "greater_than"), "ge": (">=", "greater_or_equal_than")}
SEP = {1: " ", 2: "\n", 3: "\t ", 4: "  ", 5: " /* by x */ ", 6: " -- where it is\n", 7: " /* , */\n", 8: ""}
WORDS = ["source", "level", "first", "type"]
REFUSALS = ("QueryError", "ParseError", "ArgumentError", "JoinError", "AccessDeniedOrDoesNotExistException")


def make_world():
    w = qgen.event_world(extra_orders=[dict(name="cum_amount", field_type="measure", type="cumulative", measure="sum_amount")])
    o = w.views["orders"]
    for k in WORDS:
        o.dim(k)
    o.dim("year_no", "number").met("count", "count").met("max", "max", "amount")
    return w


def cased(s, style):
    return {1: s.upper(), 2: s.lower(), 3: s.title(), 4: s.upper()}[style]


def lit(v):
    return str(v) if isinstance(v, int) else "'" + v.replace("'", "''") + "'"


def text(c, rng, top=True):
    if c["op"] in ("and", "or"):
        t = rng.choice([" %s ", "\n%s ", " %s\n"]) % cased(c["op"], rng.randint(1, 3))
        t = t.join(text(x, rng, False) for x in c["args"])
        return t if top else f"({t})"
    f = "${%s}" % c["f"]
    sp = rng.choice([" ", " ", "", "\n"])
    if c["op"] in ("null", "notnull"):
        return f + " " + cased("is null" if c["op"] == "null" else "is not null", rng.randint(1, 3))
    if c["op"] in ("in", "notin"):
        return f"{f} {cased('in' if c['op'] == 'in' else 'not in', rng.randint(1, 3))} ({(',' + sp).join(map(lit, c['v']))})"
    o = OPS[c["op"]][0]
    return f + sp + ("!=" if o == "<>" and rng.random() < 0.5 else o) + sp + lit(c["v"][0])


def filters(c):
    """the same condition as structured filters"""
    if c["op"] == "and":
        return [y for x in c["args"] for y in filters(x)]
    if c["op"] == "or":
        return [{"conditions": [y for x in c["args"] for y in ([{"conditions": filters(x), "logical_operator": "AND"}] if x["op"] == "and" else filters(x))],
                 "logical_operator": "OR"}]
    ex = {"null": "is_null", "notnull": "is_not_null", "in": "isin", "notin": "isnotin"}.get(c["op"]) or OPS[c["op"]][1]
    y = {"field": c["f"], "expression": ex}
    if ex not in ("is_null", "is_not_null"):
        y["value"] = c["v"] if c["op"] in ("in", "notin") else c["v"][0]
    return [y]


def statement(lexemes, noise, rng, fn, gap):
    t = ""
    for k, x in enumerate(lexemes):
        sep = SEP[noise[k]["sep"]]
        if not sep and k and x["k"] != "comma" and lexemes[k - 1]["k"] != "comma":
            sep = " "
        word = x["t"]
        if x["k"] == "kw":
            word = cased(word, noise[k]["style"])
            if word.upper() == "ORDER BY":
                word = word.replace(" ", rng.choice([" ", "\n", "  "]))
        elif x["k"] in ("dir", "unit"):
            word = cased(word, noise[k]["style"])
        elif x["k"] == "cond":
            word = text(x["c"], rng)
        t += sep + word
    return {1: "MQL", 2: "mql", 3: "Mql"}[fn] + {1: "", 2: "", 3: " ", 4: "\n", 5: ""}[gap] + "(" + t + SEP[noise[-1]["sep"]] + ")"


def args(m):
    q = {"metrics": m["metrics"], "dimensions": m["dimensions"]}
    if m["where"]:
        q["where"] = filters(m["where"][0])
    if m["having"]:
        q["having"] = filters(m["having"][0])
    if m["order"]:
        q["order_by"] = [dict(field=o["by"], **({"sort": o["dir"]} if o["dir"] else {})) for o in m["order"]]
    if m["limit"]:
        q["limit"] = int(m["limit"][0])
    if m["steps"]:
        q["funnel"] = {"steps": [filters(s) for s in m["steps"]], "within": {"value": int(m["within"][0]), "unit": m["within"][1]}}
        if m["view"]:
            q["funnel"]["view_name"] = m["view"][0]
    return q


def around(how, a, b, ca, cb):
    return {"bare": a, "star": f"SELECT * FROM {a}", "alias": f"SELECT * FROM {a} as x", "nested": f"SELECT * FROM (SELECT * FROM {a} q) z",
            "with": f"WITH q AS (SELECT * FROM {a})\nSELECT * FROM q", "count": f"SELECT COUNT(*) as n FROM {a} x",
            "where": f"SELECT * FROM {a} x WHERE x.{ca} IS NOT NULL", "union": f"SELECT x.{ca} as v FROM {a} x UNION ALL SELECT y.{cb} as v FROM {b} y",
            "comma": f"SELECT * FROM {a} as x, {b} as y", "cross": f"SELECT x.*, y.* FROM {a} x CROSS JOIN {b} AS y",
            "join": f"SELECT * FROM {a} x JOIN {b} y ON x.{ca} = y.{cb}",
            "scalar": f"SELECT (SELECT COUNT(*) FROM {a} x) as n, (SELECT COUNT(*) FROM {b} y) as m"}[how]


def seen(r):
    st = r["status"]
    if st.startswith("raised ") and st[7:] in REFUSALS:
        st = "refused"
    return dict(status=st, cols=[str(x).lower() for x in r["cols"]], rows=[[enc(x) for x in row] for row in r["rows"]])


def run(k, case, conn, db, dialect, rng):
    m = case["a"]
    none = dict(status="ok", cols=["x"], rows=[], sql=None)
    qa = args(m) if m["st"] == "ok" else None
    ra = world.observe(conn, db, dialect, copy.deepcopy(qa)) if qa else none
    full = world.observe(conn, db, dialect, copy.deepcopy({x: y for x, y in qa.items() if x != "limit"})) if qa and m["limit"] else ra
    qb = args(case["b"]) if case["btext"] else None
    rb = world.observe(conn, db, dialect, copy.deepcopy(qb)) if qb else none
    col1 = lambda r: str((r["cols"] or ["x"])[0])  # noqa: E731
    a = statement(case["text"], case["noise"], rng, case["fn"], case["gap"])
    b = statement(case["btext"], case["bnoise"], rng, 1, 1) if qb else ""
    sql = around(case["how"], a, b, col1(ra), col1(rb)) + case["end"]
    r = world.observe(conn, db, dialect, {"sql": sql})
    loose = False
    if m["steps"] and r["status"] == "sql does not run" and "no such column" in r["err"]:
        # known finding: the steps name the base tables; what else the statement says is judged on the columns of the base
        mended = mend(r["sql"])
        try:
            cols, rows = db.run(mended, dialect, today="2024-05-15")
            r, loose = dict(r, status="ok", cols=cols, rows=rows), True
        except Exception as e:  # noqa: BLE001
            r = dict(r, err=str(e)[:300])
    ended = (r["sql"] or "").rstrip()
    ended = ";" if ended.endswith(";") else "-"
    same = "same"
    if k % 7 == 0 and r["status"] == "ok":
        got = []
        conn.run_query = lambda query, connection, **kw: got.append((query, getattr(connection, "name", None)))
        try:
            conn.query(sql=sql)
            same = "same" if got == [(r["sql"], "c")] else "different"
            kind = conn.get_sql_query(sql=sql, return_query_kind=True)
            if qa and ra["status"] == "ok" and not qb and kind[1] != conn.get_sql_query(**copy.deepcopy(qa), return_query_kind=True)[1]:
                same = "kind of query"
        except Exception as e:  # noqa: BLE001
            same = "raised " + type(e).__name__
        del conn.run_query
    cols = [str(x).lower() for x in ra["cols"]]
    order = []
    if m["st"] == "ok" and case["kind"] in ("single", "mapped", "dims") and qa.get("metrics", []) + qa.get("dimensions", []):
        names = m["dimensions"] + m["metrics"]     # the columns of the answer
        if len(names) == len(cols):
            for o in m["order"]:
                order.append({"i": names.index(o["by"]) + 1, "desc": o["dir"] == "desc"})
    o = dict(text=case["text"], btext=case["btext"], how=case["how"], mql=seen(r), a=seen(ra), b=seen(rb), full=seen(full)["rows"],
             first=[int(m["limit"][0])] if m["limit"] and m["st"] == "ok" else [], order=order, nulls=dialect not in ("DRUID", "SQL_SERVER"),
             ends="-" if dialect in ("TRINO", "DRUID") and ";" not in case["end"] else ";", ended=ended, conn=same)
    return o, dict(loose=loose, dialect=dialect, mql=sql, arguments=qa, other=qb, sql=r["sql"], err=r.get("err"), plain=ra["sql"], plain_err=ra.get("err"),
                   rows=r["rows"][:5], plain_rows=ra["rows"][:5])


def mend(sql):
    """the conditions of a funnel's steps on the columns of its base instead of on the base's tables"""
    def step(m):
        head, where, tail = m.group(0).partition(" WHERE ")
        quoted = re.split(r"('(?:[^']|'')*')", tail)
        quoted[::2] = [re.sub(r"\b(orders|people)\.(\w+)", r"base.\1_\2", p) for p in quoted[::2]]
        return head + where + "".join(quoted)

    return re.sub(r"step_\d+ AS \((?:(?!step_\d+ AS \().)*?\) ,(?=step_\d+ AS \(|result_cte AS \()", step, sql, flags=re.S)


def q(xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


KINDS = ["single", "mapped", "merged", "cumulative", "funnel", "dims"]
HOWS = ["bare", "star", "alias", "nested", "with", "count", "where", "union", "comma", "cross", "join", "scalar"]


def body(c):
    n = 3000 if c.quick else 12000
    r = tlc.generate("MqlModel", constants=dict(Kinds=q(KINDS), Hows=q(HOWS), Wounds=q(["none", "drop", "comma", "twice", "unknown", "nothing", "no"])),
                     simulate=n // 20, depth=20, seed=c.seed * 7 + 3, invariants=("Emit", "WriteRead", "Second"))
    if r.violated:
        raise tlc.TLCError("law of Mql: " + r.violated)
    c.tlc("Mql: drawn and read back", r)
    rng = random.Random(1800 + c.seed)
    worlds = []
    for _ in range(12 if c.quick else 60):
        w = make_world()
        qgen.fill_events(w, rng, texts=("a", "b", "by", "a -- b", "it's", "x, order by"))
        worlds.append((w, w.db(spine=("2023-12-25", "2024-05-20"))))
    conns, obs, meta, free = {}, [], [], 0
    for k, case in enumerate(r.cases):
        if case["a"]["st"] == "free":
            free += 1
            continue
        wi, dialect = k % len(worlds), DIALECTS[k % len(DIALECTS)]
        if case["kind"] == "cumulative" and rng.random() < 0.8:
            dialect = rng.choice(["SNOWFLAKE", "REDSHIFT", "POSTGRES", "BIGQUERY"])
        conn = conns.setdefault((wi, dialect), None) or world.layer(worlds[wi][0], dialect)
        conns[(wi, dialect)] = conn
        o, m = run(k, case, conn, worlds[wi][1], dialect, rng)
        obs.append(o)
        meta.append(dict(m, how=case["how"], kind=case["kind"]))
    r = tlc.judge("MqlTrace", obs)
    c.tlc("MqlTrace", r)
    c.traces += len(obs)
    c.count("mql", statements=len(obs), left_open_by_the_language=free, answered=sum(o["mql"]["status"] == "ok" for o in obs),
            with_rows=sum(bool(o["mql"]["rows"]) for o in obs), refused=sum(o["mql"]["status"] == "refused" for o in obs))
    loose = [m for m in meta if m["loose"]]
    c.count("mql", funnels_mended=len(loose))
    if loose:
        c.violation("text steps of a funnel name columns that its base does not have", loose[0], key="funnel-text-steps")
    for i, v in r.verdicts:
        c.violation(v, meta[i], key=f"{meta[i]['kind']} {v}")
    for m in meta[:3]:
        c.sample({x: m[x] for x in ("mql", "arguments", "dialect")})


check.main("C18", body)
