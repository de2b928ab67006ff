"""Small worlds (semantic model + data) with, for every field, both the definition given to metrics_layer and the
meaning given to the specification (Rel.tla expression records)."""
import copy
import datetime as dt
import random
import re
import warnings

warnings.simplefilter("ignore")
import sqlx  # noqa: E402

EPOCH = dt.datetime(2000, 1, 1)
TSRE = re.compile(r"^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d$")


# ------------------------------------------------------------------ scalars
def secs(d):
    if isinstance(d, str):
        d = sqlx.parse_ts(d)
    return int((d - EPOCH).total_seconds())


def iso(s):
    return (EPOCH + dt.timedelta(seconds=s)).strftime("%Y-%m-%dT%H:%M:%S")


def enc(v):
    """python value (as it comes out of the database) -> Val"""
    if v is None:
        return []
    if isinstance(v, bool):
        return [0, int(v)]
    if isinstance(v, int):
        return [0, max(-1000000, min(1000000, v))]
    if isinstance(v, float):
        if v != v:
            return [1, 78, 97, 78]
        if abs(v - round(v)) < 1e-9 or abs(v) > 20000:
            return [0, int(max(-1000000, min(1000000, round(v))))]
        return [2, round(v * 1000), 1000]
    s = str(v)
    if TSRE.match(s) and 1990 <= int(s[:4]) <= 2060:
        return [3, secs(s)]
    return [1] + [ord(c) for c in s]


def col(view, name):
    return {"op": "col", "view": view, "col": name}


def const(v):
    return {"op": "const", "v": enc(v)}


TRUE = {"op": "and", "args": []}


def cmp_(f, e, v):
    return {"op": "cmp", "f": f, "e": e, "v": v if isinstance(v, dict) else const(v)}


def agg(kind, view, e, c=None):
    return {"kind": "agg", "agg": kind, "view": view, "e": e, "c": c or TRUE}


# ------------------------------------------------------------------ fields
WEEK = {"monday": 0, "tuesday": 1, "wednesday": 2, "thursday": 3, "friday": 4, "saturday": 5, "sunday": 6}


class View:
    def __init__(self, name, key, identifiers=None, default_date=None, **extra):
        self.name, self.key = name, key
        self.table = "t_" + name
        self.yaml = dict(version=1, type="view", name=name, model_name="m", sql_table_name=self.table,
                         identifiers=identifiers or [], fields=[], **extra)
        if default_date:
            self.yaml["default_date"] = default_date
        self.cols = []          # (name, type)
        self.dims = {}          # query name -> expr
        self.dim_types = {}
        self.mets = {}          # name -> measure spec

    def column(self, name, typ):
        if name not in [c for c, _ in self.cols]:
            self.cols.append((name, typ))

    def dim(self, name, typ="string", column=None, **kw):
        column = column or name
        self.column(column, {"string": "text", "number": "int", "yesno": "bool"}[typ])
        d = dict(name=name, field_type="dimension", type=typ, sql="${TABLE}.%s" % column, **kw)
        self.yaml["fields"].append(d)
        self.dims[name] = col(self.name, column)
        self.dim_types[name] = typ
        return self

    def time(self, name, timeframes=("raw", "time", "date", "month", "quarter", "year"), week_start="monday", **kw):
        self.column(name, "ts")
        self.yaml["fields"].append(dict(name=name, field_type="dimension_group", type="time", sql="${TABLE}.%s" % name,
                                        timeframes=list(timeframes), **kw))
        c = col(self.name, name)
        for t in timeframes:
            unit = {"raw": None, "time": "second", "date": "day"}.get(t, t)
            self.dims[f"{name}_{t}"] = c if unit is None else {"op": "trunc", "unit": unit, "ws": WEEK[week_start], "e": c}
            self.dim_types[f"{name}_{t}"] = "ts"
        return self

    def computed(self, name, typ, sql, expr, **kw):
        self.yaml["fields"].append(dict(name=name, field_type="dimension", type=typ, sql=sql, **kw))
        self.dims[name] = expr
        self.dim_types[name] = typ
        return self

    def met(self, name, agg_, of=None, filters=None, cond=None, **kw):
        """of: a column; filters: yaml filters; cond: its meaning"""
        d = dict(name=name, field_type="measure", type=agg_, **kw)
        if of:
            d["sql"] = "${%s}" % of
        if filters:
            d["filters"] = filters
        self.yaml["fields"].append(d)
        e = col(self.name, of) if of else col(self.name, self.key)
        self.mets[name] = agg(agg_, self.name, e, cond)
        return self

    def ratio(self, name, sql, spec, **kw):
        self.yaml["fields"].append(dict(name=name, field_type="measure", type="number", sql=sql, **kw))
        self.mets[name] = spec
        return self


class World:
    def __init__(self, views, model=None):
        self.views = {v.name: v for v in views}
        self.model = dict(version=1, type="model", name="m", connection="c")
        self.model.update(model or {})
        self.data = {}

    # --- data
    def random_data(self, rng, sizes, nulls=0.2, texts=("a", "B", "ab", "bA"), ints=(-2, 7), fk=None, ts=None):
        fk = fk or {}
        ts = ts or (lambda r: r.choice(TS_POOL))
        for v in self.views.values():
            rows = []
            for i in range(sizes.get(v.name, 3)):
                row = {}
                for c, t in v.cols:
                    if c == v.key and c not in fk.get(v.name, {}):
                        row[c] = i + 1
                    elif c in fk.get(v.name, {}):
                        tgt = fk[v.name][c]
                        if c == v.key:   # one-to-one key
                            row[c] = i + 1
                        else:
                            row[c] = None if rng.random() < nulls / 2 else rng.randint(1, sizes.get(tgt, 3) + 1)
                    elif rng.random() < nulls:
                        row[c] = None
                    elif t == "text":
                        row[c] = rng.choice(texts)
                    elif t == "int":
                        row[c] = rng.randint(*ints)
                    elif t == "bool":
                        row[c] = rng.randint(0, 1)
                    else:
                        row[c] = ts(rng)
                rows.append(row)
            self.data[v.name] = rows
        return self

    def spec_tables(self):
        return {n: [{c: enc(r[c]) for c, _ in v.cols} for r in self.data[n]] for n, v in self.views.items()}

    def db(self, spine=None):
        db = sqlx.DB()
        for n, v in self.views.items():
            cols = [c for c, _ in v.cols]
            db.load(v.table, cols, [tuple(r[c] for c in cols) for r in self.data[n]])
        if spine:
            db.load_spine(*spine)
        return db

    # --- metrics_layer objects
    def defs(self):
        return copy.deepcopy([self.model]), copy.deepcopy([v.yaml for v in self.views.values()])

    def project(self, **kw):
        from metrics_layer.core.model.project import Project

        m, v = self.defs()
        return Project(models=m, views=v, **kw)

    def dim(self, ref):
        v, n = ref.split(".")
        return self.views[v].dims[n]

    def met(self, ref):
        v, n = ref.split(".")
        return self.views[v].mets[n]


TS_POOL = [
    "2023-12-31T23:59:59", "2024-01-01T00:00:00", "2024-01-07T12:00:00", "2024-01-08T00:00:01", "2024-01-31T23:00:00",
    "2024-02-29T10:30:15", "2024-03-01T00:00:00", "2024-03-31T12:00:00", "2024-04-01T06:07:08", "2024-12-30T00:00:00",
    "2025-01-01T00:00:00",
]


def connection(kind="SNOWFLAKE", name="c"):
    from metrics_layer.core.parse.connections import BaseConnection

    class Fake(BaseConnection):
        def __init__(self):
            self.name, self.type = name, kind

        def to_dict(self):
            return {"name": self.name, "type": self.type}

        def run_query(self, *a, **k):
            raise RuntimeError("no database behind this connection")

    return Fake()


def layer(world_or_project, dialect="SNOWFLAKE", user=None):
    from metrics_layer.core import MetricsLayerConnection

    p = world_or_project.project() if isinstance(world_or_project, World) else world_or_project
    return MetricsLayerConnection(project=p, connections=[connection(dialect)], user=user)


# ------------------------------------------------------------------ observing
ON = re.compile(r'^\s*([\w]+)\s*\.\s*"?(\w+)"?\s*=\s*([\w]+)\s*\.\s*"?(\w+)"?\s*$')


def parse_on(text):
    out = []
    t = text.strip()
    while t.startswith("(") and t.endswith(")"):
        t = t[1:-1].strip()
    for part in re.split(r"(?i)\s+and\s+", t):
        m = ON.match(part.strip().strip("()"))
        if not m:
            return None
        out.append({"a": col(m.group(1), m.group(2)), "b": col(m.group(3), m.group(4))})
    return out


KIND = {"LEFT JOIN": "left", "LEFT OUTER JOIN": "left", "JOIN": "inner", "INNER JOIN": "inner"}


def plan_of(sql, items=None):
    """FROM/JOIN structure, or None when it is not a chain of left/inner equi-joins over view aliases"""
    sk = sqlx.skeleton_items(items) if items is not None else sqlx.skeleton(sql)
    if not sk:
        return None
    joins = []
    for alias, kind, on in sk[1:]:
        o = parse_on(on or "")
        if kind not in KIND or o is None:
            return None
        joins.append({"view": alias, "kind": KIND[kind], "on": o})
    return {"base": sk[0][0], "joins": joins}


def observe(conn, db, dialect, query, today="2024-05-15"):
    """run one query through the public API and the database: dict with status/sql/cols/rows"""
    try:
        sql = conn.get_sql_query(**query)
    except Exception as e:  # noqa: BLE001
        return {"status": "raised " + type(e).__name__, "err": str(e)[:200], "sql": None, "cols": [], "rows": []}
    try:
        cols, rows = db.run(sql, dialect, today=today)
    except Exception as e:  # noqa: BLE001
        return {"status": "sql does not run", "err": str(e)[:300], "sql": sql, "cols": [], "rows": []}
    return {"status": "ok", "sql": sql, "cols": cols, "rows": rows}
