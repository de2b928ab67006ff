"""C10: a date expression selects the calendar interval it names, on every day, week start and timezone."""
import datetime as dt
import random
from zoneinfo import ZoneInfo

import check
import clock
import tlc
import world
from qgen import PLAIN, SYM
from world import WEEK

OPEN = 2000000000
UNITS = ("day", "week", "month", "quarter", "year")
ZONES = (None, None, "UTC", "America/New_York", "Asia/Tokyo", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Europe/London",
         "Australia/Lord_Howe", "Asia/Kolkata", "America/Los_Angeles", "Pacific/Chatham")
D0 = dt.date(2000, 1, 1)
SUB = ("raw", "time", "date", "week", "month", "quarter", "year")


def num(d):
    return (d - D0).days


def units(rng, n, u):
    return u if n == 1 and rng.random() < 0.7 else u + "s"


def expression(rng, today, top=True):
    """-> (text, record)"""
    k = rng.choice(["today", "yesterday", "this", "last", "n", "n", "ago", "ago", "todate", "todate", "todate", "agofor", "agofor"]
                   + (["until", "until", "after", "before", "on"] if top else []))
    u = rng.choice(UNITS)
    n = rng.choice([1, 1, 2, 3, 5, 12, 13, 30, 52])
    if k in ("today", "yesterday"):
        return k, {"k": k}
    if k in ("this", "last"):
        return f"{k} {u if rng.random() < 0.9 else u + 's'}", {"k": k, "u": u}
    if k == "n":
        return f"{rng.choice(['', '', 'last '])}{n} {units(rng, n, u)}", {"k": "n", "n": n, "u": u}
    if k == "ago":
        n = rng.choice([0, n])
        return f"{n} {units(rng, n, u)} ago", {"k": "ago", "n": n, "u": u}
    if k == "todate":
        form = rng.choice(["", "this", "last", "n", "nago"])
        if form in ("", "this"):
            return f"{form} {u} to date".strip(), {"k": "todate", "n": 0, "u": u}
        if form == "last":
            return f"last {u} to date", {"k": "todate", "n": 1, "u": u}
        if form == "n":
            return f"{n} {units(rng, n, u)} to date", {"k": "todate", "n": n - 1, "u": u}
        return f"{n} {units(rng, n, u)} ago to date", {"k": "todate", "n": n, "u": u}
    if k == "agofor":
        m, v = rng.choice([1, 2, 3, 7, 30]), rng.choice(UNITS)
        return f"{n} {units(rng, n, u)} ago for {m} {units(rng, m, v)}", {"k": "agofor", "n": n, "u": u, "m": m, "v": v}
    d = today + dt.timedelta(days=rng.randint(-400, 40))
    if k == "until":
        parts = []
        for _ in range(2):
            if rng.random() < 0.4:
                x = today + dt.timedelta(days=rng.randint(-400, 40))
                parts.append((x.isoformat(), {"k": "day", "d": num(x)}))
            else:
                parts.append(expression(rng, today, False))
        return f"{parts[0][0]} until {parts[1][0]}", {"k": "until", "a": parts[0][1], "b": parts[1][1]}
    return f"{k} {d.isoformat()}", {"k": k, "d": num(d)}


def special_day(rng):
    y = rng.randint(2019, 2029)
    r = rng.random()
    if r < 0.35:
        m = rng.randint(1, 12)
        first = dt.date(y, m, 1)
        return first + dt.timedelta(days=rng.choice([-1, 0, 0, 1, 28, 29, 30]))
    if r < 0.45:
        return dt.date(rng.choice([2020, 2024, 2028]), 2, rng.choice([28, 29])) + dt.timedelta(days=rng.choice([0, 0, 1]))
    if r < 0.55:
        return dt.date(y, rng.choice([3, 3, 10, 11]), rng.randint(1, 31 if rng.random() < 0 else 30))    # clock changes
    return dt.date(y, 1, 1) + dt.timedelta(days=rng.randint(0, 365))


def instant(rng, day, zone):
    t = rng.choice([dt.time(0, 0), dt.time(0, 30), dt.time(12, 0), dt.time(23, 59, 59), dt.time(23, 30), dt.time(3, 15)])
    return dt.datetime.combine(day, t, tzinfo=ZoneInfo(zone or "UTC"))


def ends_of(fs):
    lo, hi = -OPEN, OPEN
    for f in fs:
        ex = getattr(f["expression"], "value", f["expression"])
        s = world.secs(str(f["value"]))
        if ex in ("greater_or_equal_than", "equal_to"):
            lo = max(lo, s)
        elif ex == "greater_than":
            lo = max(lo, s + 1)
        if ex in ("less_or_equal_than", "equal_to"):
            hi = min(hi, s)
        elif ex == "less_than":
            hi = min(hi, s - 1)
        elif ex not in ("greater_or_equal_than", "equal_to", "greater_than"):
            lo, hi = 0, -1
    return lo, hi


def make_project(ws, zone, text, neg, weeks=None):
    from metrics_layer.core.model.project import Project

    ev = world.View("ev", "ev_id", default_date="at", identifiers=[])
    ev.dim("ev_id", "number", primary_key=True)
    ev.time("at", SUB, convert_tz=False)
    ev.met("n_ev", "count")
    ev.yaml["fields"].append(dict(name="sel_ev", field_type="measure", type="count", sql="${ev_id}",
                                  filters=[dict(field="at_raw", value=text)]))
    # the same view, restricted by an always filter
    al = world.View("al", "ev_id", default_date="at", identifiers=[], always_filter=[dict(field="at_raw", value=text)])
    al.dim("ev_id", "number", primary_key=True)
    al.time("at", SUB, convert_tz=False)
    al.met("n_al", "count")
    model = {}
    if ws:
        model["week_start_day"] = ws
    if zone:
        model["timezone"] = zone
    w = world.World([ev, al], model=model)
    m, v = w.defs()
    board = dict(version=1, type="dashboard", name="board", label="b", filters=[dict(field="ev.at_raw", value=text)],
                 elements=[dict(type="table", title="t", model="m", metrics=["ev.n_ev"], slice_by=[],
                                filters=[dict(field="ev.at_raw", value=text)])])
    return w, Project(models=m, views=v, dashboards=[board])


def model_laws(c):
    spans = [(2019, 2021)] if c.quick else [(2019, 2021), (2022, 2024), (1999, 2001), (2026, 2028)]
    for a, b in spans:
        for u in UNITS:
            r = tlc.run("DateExprModel", tlc.cfg(constants={"From": num(dt.date(a, 1, 1)), "To": num(dt.date(b, 3, 5)), "Unit": f'"{u}"'},
                                                 invariants=["WellFormed", "Contains", "Touch", "Phrases", "ToDateBehind", "Year3", "Week0"]))
            if r.violated:
                raise RuntimeError("the specification breaks its own law " + r.violated)
            c.tlc("laws of the specification", r)


def body(c):
    from metrics_layer.core.model.filter import Filter

    rng = random.Random(c.seed * 101 + 9)
    obs, meta = [], []
    # 1. the interval itself, from the filter class
    for _ in range(12000 if c.quick else 60000):
        zone, ws, day = rng.choice(ZONES), rng.choice([None] + list(WEEK)), special_day(rng)
        text, e = expression(rng, day)
        now = instant(rng, day, zone)
        with clock.at(now):
            try:
                fs, status = Filter({"field": "f", "value": text, "week_start_day": ws, "timezone": zone}).filter_dict(), "ok"
                lo, hi = ends_of(fs)
            except Exception as ex:  # noqa: BLE001
                fs, status, lo, hi = repr(ex)[:200], "raised", 1, -1
        obs.append({"mode": "ends", "e": e, "t": num(now.date()), "ws": WEEK[ws or "monday"], "lo": lo, "hi": hi})
        meta.append({"where": "Filter", "text": text, "now": str(now), "week_start_day": ws, "got": str(fs)[:300]})
    # 2. the rows a query selects, through every place an expression can be written
    n = 900 if c.quick else 3000
    for i in range(n):
        zone, ws, day = rng.choice(ZONES), rng.choice([None] + list(WEEK)), special_day(rng)
        text, e = expression(rng, day)
        if rng.random() < 0.1:
            d = day + dt.timedelta(days=rng.randint(-3, 3))
            text, e, neg = f"not on {d.isoformat()}", {"k": "on", "d": num(d)}, True
        else:
            neg = False
        now = instant(rng, day, zone)
        dialect = (SYM + PLAIN)[i % 10]
        place = rng.choice(["matches", "matches", "or", "measure", "always", "element", "board"])
        if e["k"] not in ("after", "before", "on") or place != "matches":
            pass
        days = {day + dt.timedelta(days=k) for k in (-366, -365, -92, -91, -31, -30, -29, -8, -7, -6, -2, -1, 0, 1, 2, 6, 7, 29, 30, 31)}
        for m in (-13, -12, -6, -4, -3, -2, -1, 0, 1, 3):
            k = day.year * 12 + day.month - 1 + m
            f = dt.date(k // 12, k % 12 + 1, 1)
            days |= {f, f - dt.timedelta(days=1)}
        for k in (-1, 0, 1):
            days |= {dt.date(day.year + k, 1, 1), dt.date(day.year + k, 12, 31)}
        ts = sorted(dt.datetime.combine(x, t).isoformat() for x in rng.sample(sorted(days), 26)
                    for t in (dt.time(0, 0), dt.time(23, 59, 59)))
        w, project = make_project(ws, zone, text, neg)
        w.data = {"ev": [{"ev_id": k + 1, "at": s} for k, s in enumerate(ts)]}
        w.data["al"] = w.data["ev"]
        db = w.db()
        conn = world.layer(project, dialect)
        frame = "raw"
        warm = rng.random() < 0.4
        if warm:      # the project has been used on an earlier day
            with clock.at(now - dt.timedelta(days=rng.choice([1, 3, 40, 400]))):
                project.fields()
                project.get_field("ev.sel_ev")
                for q in ({"metrics": ["ev.sel_ev"], "dimensions": ["ev.ev_id"], "force_group_by": True},
                          {"metrics": ["al.n_al"], "dimensions": ["al.ev_id"], "force_group_by": True},
                          {"metrics": [], "dimensions": ["ev.ev_id"], "where": [{"field": "ev.at_raw", "expression": "matches", "value": text}]}):
                    if not (neg and "where" in q):
                        conn.get_sql_query(**q)
        with clock.at(now):
            if place in ("matches", "or"):
                # BigQuery and SQL Server buckets are C12's subject
                frame = "raw" if rng.random() < 0.6 else rng.choice(["time", "date", "month", "year"])
                f = {"field": f"ev.at_{frame}", "expression": "matches", "value": text}
                if place == "or":
                    f = {"logical_operator": "OR", "conditions": [f, {"field": "ev.ev_id", "expression": "equal_to", "value": 99}]}
                q = {"metrics": [], "dimensions": ["ev.ev_id"], "where": [f]}
                o = world.observe(conn, db, dialect, q)
            elif place == "measure":
                o = world.observe(conn, db, dialect, {"metrics": ["ev.sel_ev"], "dimensions": ["ev.ev_id"], "force_group_by": True})
                o["rows"] = [r for r in o["rows"] if r[1]]
            elif place == "always":
                o = world.observe(conn, db, dialect, {"metrics": ["al.n_al"], "dimensions": ["al.ev_id"], "force_group_by": True})
            else:
                b = project.get_dashboard("board")
                try:
                    fs = (b if place == "board" else b.elements()[0]).parsed_filters(json_safe=True)
                    fs = [{k: x[k] for k in ("field", "expression", "value") if k in x} for x in fs]
                    o = world.observe(conn, db, dialect, {"metrics": [], "dimensions": ["ev.ev_id"], "where": fs})
                except Exception as ex:  # noqa: BLE001
                    o = {"status": "raised " + type(ex).__name__, "err": str(ex)[:200], "rows": [], "sql": None}
        unit = {"raw": "second", "time": "second", "date": "day"}.get(frame, frame)
        obs.append({"mode": "rows", "e": e, "t": num(now.date()), "ws": WEEK[ws or "monday"], "all": [world.secs(s) for s in ts],
                    "u": unit, "neg": neg, "sel": [r[0] for r in o["rows"]], "status": o["status"]})
        meta.append({"where": place, "text": text, "now": str(now), "week_start_day": ws, "dialect": dialect, "sql": o["sql"],
                     "err": o.get("err"), "frame": frame})
        c.count("places", **{place: 1})
    r = tlc.judge("DateExprTrace", obs)
    c.tlc("intervals", r)
    c.traces += len(obs)
    c.count("intervals", observations=len(obs))
    for m in meta[:3] + meta[-2:]:
        c.sample({k: m[k] for k in ("where", "text", "now", "week_start_day")}, cap=6)
    for i, clause in r.verdicts:
        key = "quarter-end" if clause.startswith("quarter ends") else None
        c.violation(clause, meta[i], key=key)
    model_laws(c)


if __name__ == "__main__":
    check.main("C10", body)
