"""C12: a time dimension puts every instant into the right period; a duration counts the units between two instants."""
import datetime as dt
import random

import check
import tlc
import world
from world import WEEK, View, World

DIALECTS = ("SNOWFLAKE", "REDSHIFT", "BIGQUERY", "POSTGRES", "DUCK_DB", "DATABRICKS", "DRUID", "TRINO", "SQL_SERVER",
            "AZURE_SYNAPSE")
NOTZ = ("DRUID", "SQL_SERVER", "AZURE_SYNAPSE")
MSSQL = ("SQL_SERVER", "AZURE_SYNAPSE")
ZONES = ("America/New_York", "America/Los_Angeles", "Europe/Berlin", "Europe/London", "Australia/Sydney", "Asia/Tokyo",
         "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago", "UTC")
FRAMES = ("raw", "time", "second", "minute", "hour", "date", "week", "month", "quarter", "year", "fiscal_month",
          "fiscal_quarter", "fiscal_year", "week_index", "week_of_year", "week_of_month", "month_of_year_index", "month_index",
          "fiscal_month_of_year_index", "fiscal_month_index", "month_of_year", "month_name", "quarter_of_year",
          "fiscal_quarter_of_year", "hour_of_day", "day_of_week", "day_of_month", "day_of_year")
UNITS = ("second", "minute", "hour", "day", "week", "month", "quarter", "year")
NONE = -2000000000
DB = {"POSTGRES": "postgres", "BIGQUERY": "bigquery", "SQL_SERVER": "mssql", "AZURE_SYNAPSE": "mssql", "DRUID": "druid"}
NUMF = [f for f in FRAMES if f.endswith(("index", "of_year", "of_month", "of_day")) and f != "month_of_year"]
# names that are themselves parts of timeframe names
NAMES = ("ts", "ts", "created", "week", "day", "month", "order_week", "year", "date", "hour", "fiscal", "time", "of")


def edge(rng, z):
    """an instant near a boundary of some period"""
    y = rng.randint(2018, 2029)
    r = rng.random()
    if r < 0.3:
        d = dt.datetime(y, rng.choice([1, 1, 4, 7, 10, 12, 3, 2, rng.randint(1, 12)]), 1)
    elif r < 0.5:
        d = dt.datetime(y, 1, 1) + dt.timedelta(days=rng.randint(-9, 9))
    elif r < 0.6:
        d = dt.datetime(y, 2, 28) + dt.timedelta(days=rng.randint(0, 2))
    elif r < 0.75:   # clock changes
        d = dt.datetime(y, rng.choice([3, 4, 10, 11]), rng.randint(1, 30)) + dt.timedelta(hours=rng.randint(0, 23))
    else:
        d = dt.datetime(y, 1, 1) + dt.timedelta(days=rng.randint(0, 365))
    d += dt.timedelta(seconds=rng.choice([0, 0, -1, 1, 3599, 3600, 43200, 86399, 18000, 17999, rng.randint(0, 86399)]))
    return d.strftime("%Y-%m-%dT%H:%M:%S")


def build(rng, tz, dialect):
    v = View("v", "id", identifiers=[dict(name="v", type="primary", sql="${id}")])
    v.dim("id", "number", primary_key=True)
    ws = rng.choice(list(WEEK))
    off = rng.choice([0, 0, 1, -2, 6, 11, -11, 3])
    model = {"week_start_day": ws}
    if rng.random() < 0.15:
        model.pop("week_start_day")
        ws = "monday"
    if off or rng.random() < 0.5:
        model["fiscal_month_offset"] = off
    names = rng.sample(sorted(set(NAMES)), 2)
    model_conv = rng.choice([None, None, None, False])
    if model_conv is False:
        model[rng.choice(["default_convert_tz", "default_convert_timezone"])] = False
    fields = []
    for k, n in enumerate(names):
        v.column("c_" + n, "ts")
        d = dict(name=n, field_type="dimension_group", type="time", sql="${TABLE}.c_%s" % n, timeframes=list(FRAMES))
        conv = rng.choice([None, None, True, False])
        if conv is not None:
            d[rng.choice(["convert_timezone", "convert_tz"])] = conv
        if rng.random() < 0.3:
            d["datatype"] = rng.choice(["timestamp", "datetime"])
        v.yaml["fields"].append(d)
        eff = conv if conv is not None else model_conv is not False
        fields.append((n, "c_" + n, tz if tz and eff and dialect not in NOTZ else "UTC"))
    # a field of datatype date holds midnights and is not converted
    v.column("c_dd", "ts")
    v.yaml["fields"].append(dict(name="dd", field_type="dimension_group", type="time", sql="${TABLE}.c_dd", datatype="date",
                                 convert_timezone=False,
                                 timeframes=[f for f in FRAMES if f not in ("time", "second", "minute", "hour", "hour_of_day")]))
    fields.append(("dd", "c_dd", "UTC"))
    dn = rng.choice(["span", "age", "days_open", "week_gap"])
    v.yaml["fields"].append(dict(name=dn, field_type="dimension_group", type="duration", sql_start="${TABLE}.c_%s" % names[0],
                                 sql_end="${TABLE}.c_%s" % names[1], intervals=list(UNITS)))
    v.met("n", "count")
    w = World([v], model)
    rows = []
    for i in range(rng.randint(5, 8)):
        a = edge(rng, tz)
        b = edge(rng, tz)
        if rng.random() < 0.5:
            b = (dt.datetime.fromisoformat(a) + dt.timedelta(days=rng.choice([0, 1, 6, 7, 30, 31, 365, -1, -40]),
                                                            seconds=rng.choice([0, -1, 1, 60, 3600]))).strftime("%Y-%m-%dT%H:%M:%S")
        rows.append({"id": i + 1, "c_" + names[0]: None if rng.random() < 0.1 else a, "c_" + names[1]: None if rng.random() < 0.1 else b,
                     "c_dd": edge(rng, tz)[:10] + "T00:00:00"})
    w.data["v"] = rows
    return w, fields, dn, names, ws, off


def body(c):
    rng = random.Random(1200 + c.seed)
    # the specification's own laws
    spans = [((2023, 12, 20), (2025, 1, 10))] if c.quick else [((2019, 1, 1), (2032, 1, 10))]
    for a, b in spans:
        r = tlc.run("TimeDimModel", tlc.cfg(constants={"From": (dt.date(*a) - dt.date(2000, 1, 1)).days,
                                                       "To": (dt.date(*b) - dt.date(2000, 1, 1)).days},
                                            invariants=["WeekStable", "WeekSucc", "WeekOfMonthRange", "Nested", "Idem", "NoAfter",
                                                        "Fiscal", "Offsets", "Counting"]))
        if r.violated:
            raise RuntimeError("the specification breaks its own law " + r.violated)
        c.tlc("TimeDimModel", r)
    obs, meta = [], []
    for dialect in DIALECTS:
        for k in range(10 if c.quick else 40):
            tz = rng.choice([None] + list(ZONES) * 2) if k else None
            w, fields, dn, names, ws, off = build(rng, tz, dialect)
            project = w.project()
            if tz:
                project.set_timezone(tz)
            conn = world.layer(project, dialect)
            db = w.db()
            p = {"ws": WEEK[ws], "off": off, "month": "full" if dialect == "BIGQUERY" else "short",
                 "day": "upper" if dialect == "BIGQUERY" else "short", "db": DB.get(dialect, "other")}
            data = w.data["v"]

            def instant(row, col):
                return NONE if row[col] is None else world.secs(row[col])

            def go(o, q, tag, read):
                got = world.observe(conn, db, dialect, q)
                o["status"] = got["status"]
                o["rows"] = read(got["rows"]) if got["status"] == "ok" else []
                if o["rows"] is None:
                    o["rows"], o["status"] = [], "rows missing"
                obs.append(o)
                meta.append({"dialect": dialect, "query": q, "tag": tag, "timezone": tz, "week_start": ws, "fiscal": off,
                             "fields": fields, "sql": got["sql"], "err": got.get("err"), "data": data, "rows": got["rows"][:8]})

            for name, col, z in fields:
                frames = FRAMES if name != "dd" else [f for f in FRAMES if f not in ("time", "second", "minute", "hour", "hour_of_day")]
                mine = frames if not c.quick or rng.random() < 0.4 else rng.sample(list(frames), 14)
                for tf in mine:
                    q = {"metrics": [], "dimensions": ["v.id", f"{rng.choice(['v.', ''])}{name}_{tf}"]}

                    def read(rows):
                        m = {r[0]: r[1] for r in rows}
                        if len(rows) != len(data) or len(m) != len(data):
                            return None
                        return [[instant(r, col), world.enc(m[r["id"]])] for r in data]

                    go({"mode": "value", "tf": tf, "z": z, "p": p}, q, tf, read)
                for tf in rng.sample(list(frames), 5 if c.quick else 12):
                    src = [r for r in data if r[col] is not None]
                    if not src:
                        continue
                    if tf in NUMF:
                        v, f = rng.randint(1, 12), rng.choice(["eq", "ne", "lt", "ge"])
                        val = v
                    elif tf in ("month_of_year", "month_name", "day_of_week"):
                        import calendar
                        full = rng.choice(calendar.month_name[1:] if tf != "day_of_week" else list(calendar.day_name))
                        style = p["day"] if tf == "day_of_week" else p["month"]
                        v = val = {"short": full[:3], "full": full, "upper": full.upper()}[style]
                        f = rng.choice(["eq", "ne"])
                    else:
                        d = dt.datetime.fromisoformat(rng.choice(src)[col]).replace(hour=0, minute=0, second=0)
                        if rng.random() < 0.6:
                            d = d.replace(day=1)
                        v, f = d.strftime("%Y-%m-%dT%H:%M:%S"), rng.choice(["lt", "ge", "eq", "ne"])
                        val = rng.choice([d.strftime("%Y-%m-%d %H:%M:%S"), d])
                    ex = {"eq": "equal_to", "ne": "not_equal_to", "lt": "less_than", "ge": "greater_or_equal_than"}[f]
                    q = {"metrics": [], "dimensions": ["v.id"], "where": [{"field": f"v.{name}_{tf}", "expression": ex, "value": val}]}

                    def read(rows):
                        got = {r[0] for r in rows}
                        return [[instant(r, col), int(r["id"] in got)] for r in data]

                    go({"mode": "pick", "tf": tf, "z": z, "p": p, "f": f, "v": world.enc(v)}, q, tf, read)
            for u in UNITS:
                kind = "complete" if dialect in ("DRUID", "TRINO", "POSTGRES") or (dialect == "BIGQUERY" and u in ("minute", "hour")) else "boundary"
                dbk = DB.get(dialect, "other")
                q = {"metrics": [], "dimensions": ["v.id", f"v.{u}s_{dn}"]}
                ca, cb = "c_" + names[0], "c_" + names[1]

                def read(rows):
                    m = {r[0]: r[1] for r in rows}
                    if len(rows) != len(data) or len(m) != len(data):
                        return None
                    keep = [r for r in data if dialect != "POSTGRES" or r[ca] is None or r[cb] is None or r[ca] <= r[cb]]
                    return [[instant(r, ca), instant(r, cb), [0, int(m[r["id"]])] if m[r["id"]] is not None else []] for r in keep]

                go({"mode": "dur", "u": u, "kind": kind, "db": dbk}, q, u, read)
    r = tlc.judge("TimeDimTrace", obs)
    c.tlc("TimeDimTrace", r)
    c.traces += len(obs)
    c.count("TimeDimTrace", values=sum(o["mode"] == "value" for o in obs), durations=sum(o["mode"] == "dur" for o in obs),
            filters=sum(o["mode"] == "pick" for o in obs), instants=sum(len(o["rows"]) for o in obs))
    c.sample({"query": meta[0]["query"], "dialect": meta[0]["dialect"]})
    c.assumptions += ["SQL is executed on SQLite through a translation of each warehouse's date functions (lib/sqlx.py)",
                      "Druid, SQL Server and Azure Synapse ignore the timezone by design (a warning is printed)"]
    for o, m in zip(obs, meta):   # the value is judged as if T-SQL had EXTRACT; that it has not is reported by itself
        if m["dialect"] in MSSQL and "EXTRACT(" in (m["sql"] or ""):
            c.violation("T-SQL has no EXTRACT", m, key="tsql-extract:" + o["tf"])
    for i, clause in r.verdicts:
        m, o = meta[i], obs[i]
        key = None
        if clause.startswith("defect:"):
            key = f"{'any' if clause[7:] == 'week_of_month' and m['dialect'] != 'BIGQUERY' else DB[m['dialect']]}:{clause[7:]}"
        c.violation(clause, m, key=key)


check.main("C12", body)
