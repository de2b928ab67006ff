"""Run the SQL that metrics_layer generates on a small in-memory database.

SQL text of the supported warehouses is translated token by token into SQLite SQL; the warehouse
functions that SQLite lacks are registered as user functions with the semantics the vendors document.
Dates and timestamps are TEXT 'YYYY-MM-DDTHH:MM:SS' throughout, so that text order is time order.

Only used to *execute*; nothing here judges.  Also extracts the FROM/JOIN skeleton of a query.
"""
import calendar
import datetime as dt
import hashlib
import math
import re
import sqlite3
import statistics
from fractions import Fraction
from zoneinfo import ZoneInfo

EPOCH = dt.datetime(1970, 1, 1)


class SQLXError(Exception):
    pass


# ------------------------------------------------------------------ tokens
TOKEN = re.compile(
    r"""
    (?P<ws>\s+)
  | (?P<str>'(?:[^']|'')*')
  | (?P<qid>"(?:[^"]|"")*"|`[^`]*`|\[[A-Za-z_][^\]]*\])
  | (?P<num>\d+(?:_\d+)*(?:\.\d+)?(?:[eE][+-]?\d+)?)
  | (?P<id>[A-Za-z_][A-Za-z_0-9$]*)
  | (?P<op>::|<=|>=|<>|!=|\|\||=>|[-+*/%<>=,.;()])
  | (?P<other>.)
""",
    re.X | re.S,
)


class Tok:
    __slots__ = ("k", "t")

    def __init__(self, k, t):
        self.k, self.t = k, t

    def __repr__(self):
        return f"{self.k}:{self.t}"

    def up(self):
        return self.t.upper() if self.k == "id" else self.t


class Grp:
    __slots__ = ("items",)
    k, t = "grp", "()"

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return f"({self.items})"

    def up(self):
        return "()"


def tokenize(sql):
    out, stack = [], []
    for m in TOKEN.finditer(sql):
        k, t = m.lastgroup, m.group()
        if k == "ws":
            continue
        if t == "(" and k == "op":
            stack.append(out)
            out = []
        elif t == ")" and k == "op":
            if not stack:
                raise SQLXError("unbalanced )")
            g = Grp(out)
            out = stack.pop()
            out.append(g)
        else:
            out.append(Tok(k, t))
    if stack:
        raise SQLXError("unbalanced (")
    return out


def split_top(items, pred):
    parts, cur = [], []
    for x in items:
        if pred(x):
            parts.append(cur)
            cur = []
        else:
            cur.append(x)
    parts.append(cur)
    return parts


def is_comma(x):
    return x.k == "op" and x.t == ","


# ------------------------------------------------------------------ date helpers
def parse_ts(v):
    if v is None:
        return None
    if isinstance(v, (int, float)):
        # T-SQL: integer 0 is 1900-01-01
        return dt.datetime(1900, 1, 1) + dt.timedelta(days=v)
    s = str(v).replace(" ", "T")
    if len(s) == 10:
        s += "T00:00:00"
    return dt.datetime.fromisoformat(s[:19])


def fmt_ts(d):
    return None if d is None else d.strftime("%Y-%m-%dT%H:%M:%S") if d.year >= 1000 else d.isoformat()


def add_months(d, n):
    y, m = divmod(d.year * 12 + d.month - 1 + n, 12)
    m += 1
    return d.replace(year=y, month=m, day=min(d.day, calendar.monthrange(y, m)[1]))


def norm_unit(u):
    u = str(u).strip().strip("'").upper()
    if u.endswith("S") and u[:-1] in {
        "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "QUARTER", "YEAR"
    }:
        u = u[:-1]
    return u


def trunc(d, unit, week_first=0):
    unit = norm_unit(unit)
    if unit == "SECOND":
        return d.replace(microsecond=0)
    if unit == "MINUTE":
        return d.replace(second=0)
    if unit == "HOUR":
        return d.replace(minute=0, second=0)
    d = d.replace(hour=0, minute=0, second=0)
    if unit == "DAY":
        return d
    if unit in ("WEEK", "ISOWEEK"):
        return d - dt.timedelta(days=(d.weekday() - week_first) % 7)
    if unit == "MONTH":
        return d.replace(day=1)
    if unit == "QUARTER":
        return d.replace(day=1, month=(d.month - 1) // 3 * 3 + 1)
    if unit in ("YEAR", "ISOYEAR"):
        return d.replace(day=1, month=1)
    raise SQLXError(f"unit {unit}")


def add_unit(d, unit, n):
    unit = norm_unit(unit)
    if unit in ("SECOND", "MINUTE", "HOUR", "DAY", "WEEK"):
        return d + dt.timedelta(**{unit.lower() + "s": n})
    if unit == "MONTH":
        return add_months(d, n)
    if unit == "QUARTER":
        return add_months(d, 3 * n)
    if unit == "YEAR":
        return add_months(d, 12 * n)
    raise SQLXError(f"unit {unit}")


def boundary_diff(a, b, unit, week_first=0):
    """number of unit boundaries crossed from a to b"""
    unit = norm_unit(unit)
    if unit == "SECOND":
        return int((b - a).total_seconds())
    if unit == "ISOYEAR":
        return b.isocalendar()[0] - a.isocalendar()[0]
    ta, tb = trunc(a, unit, week_first), trunc(b, unit, week_first)
    if unit in ("MINUTE", "HOUR", "DAY", "WEEK", "ISOWEEK"):
        sec = {"MINUTE": 60, "HOUR": 3600, "DAY": 86400, "WEEK": 604800, "ISOWEEK": 604800}[unit]
        return int((tb - ta).total_seconds() // sec)
    months = (tb.year - ta.year) * 12 + tb.month - ta.month
    return {"MONTH": months, "QUARTER": months // 3, "YEAR": months // 12, "ISOYEAR": months // 12}[unit]


def complete_diff(a, b, unit):
    """number of complete units elapsed (Trino DATE_DIFF, Druid TIMESTAMPDIFF)"""
    unit = norm_unit(unit)
    if b < a:
        return -complete_diff(b, a, unit)
    secs = {"SECOND": 1, "MINUTE": 60, "HOUR": 3600, "DAY": 86400, "WEEK": 604800}
    if unit in secs:
        return int((b - a).total_seconds()) // secs[unit]
    n = {"MONTH": 1, "QUARTER": 3, "YEAR": 12}[unit]
    months = (b.year - a.year) * 12 + b.month - a.month
    if add_months(a, months) > b:
        months -= 1
    return months // n


def age_parts(b, a):
    """postgres AGE(b, a) as (years, months, days, h, m, s)"""
    sign = 1
    if b < a:
        a, b, sign = b, a, -1
    months = (b.year - a.year) * 12 + b.month - a.month
    if add_months(a, months) > b or (a.day > b.day and add_months(a, months).day != a.day):
        months -= 1
    base = add_months(a, months)
    rest = b - base
    days, secs = rest.days, rest.seconds
    return [sign * x for x in (months // 12, months % 12, days, secs // 3600, secs % 3600 // 60, secs % 60)]


def extract(part, v):
    if v is None:
        return None
    part = norm_unit(part)
    if isinstance(v, str) and v.startswith("AGE:"):
        p = [int(x) for x in v[4:].split(",")]
        return p[["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"].index(part)]
    d = parse_ts(v)
    if part == "YEAR":
        return d.year
    if part == "MONTH":
        return d.month
    if part == "DAY":
        return d.day
    if part == "HOUR":
        return d.hour
    if part == "MINUTE":
        return d.minute
    if part == "SECOND":
        return d.second
    if part == "QUARTER":
        return (d.month - 1) // 3 + 1
    if part in ("DOY", "DAYOFYEAR", "Y", "DY"):
        return d.timetuple().tm_yday
    if part == "DOW":  # druid: 1 = Monday .. 7 = Sunday
        return d.isoweekday()
    if part in ("WEEK", "ISOWEEK"):
        return d.isocalendar()[1]
    if part == "SUNWEEK":  # BigQuery: weeks begin on Sunday, days before the first one are in week 0
        return int(d.strftime("%U"))
    raise SQLXError(f"extract {part}")


MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
MONTHS = list(calendar.month_name)[1:]
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
DAYSL = list(calendar.day_name)


def date_format(v, f):
    if v is None:
        return None
    d = parse_ts(v)
    if f in ("Mon", "MMM"):
        return MON[d.month - 1]
    if f in ("%B",):
        return MONTHS[d.month - 1]
    if f in ("Dy", "E", "EEE"):
        return DAYS[d.weekday()]
    if f == "DAY":
        return DAYSL[d.weekday()].upper()
    if f == "HH24":
        return f"{d.hour:02d}"
    raise SQLXError(f"format {f}")


def h40(x):
    if x is None:
        return None
    return int.from_bytes(hashlib.md5(str(x).encode()).digest()[:5], "big")


def nn(f):
    """null in -> null out"""

    def g(*a):
        if any(x is None for x in a):
            return None
        return f(*a)

    return g


class Median:
    def __init__(self):
        self.v = []

    def step(self, x):
        if x is not None:
            self.v.append(x)

    def finalize(self):
        return statistics.median(self.v) if self.v else None


# ------------------------------------------------------------------ translation
DATE_TYPES = {"TIMESTAMP", "DATETIME", "TIMESTAMP_NTZ", "DATETIME2", "TIMESTAMPTZ", "TIMESTAMP_LTZ"}
DATE_LIT = re.compile(r"'(\d{4}-\d{2}-\d{2})(?:[ T](\d{2}:\d{2}:\d{2})(?:\.\d+)?)?'$")
PART_FUNCS = {
    "DATEDIFF", "DATE_DIFF", "TIMESTAMP_DIFF", "TIMESTAMPDIFF", "DATEADD", "DATE_TRUNC",
    "DATETIME_TRUNC", "TIMESTAMP_TRUNC", "DATEPART", "DATENAME", "DATE_PART",
}
UNITS = {
    "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "ISOWEEK", "MONTH", "QUARTER", "YEAR", "ISOYEAR", "WEEKDAY",
    "Y", "DOY", "DAYOFYEAR",
}
# the identifiers that end an operand when looking backwards
KEYWORDS = {
    "SELECT", "FROM", "WHERE", "AND", "OR", "NOT", "ON", "JOIN", "LEFT", "RIGHT", "FULL", "OUTER", "INNER",
    "CROSS", "GROUP", "ORDER", "BY", "HAVING", "LIMIT", "AS", "CASE", "WHEN", "THEN", "ELSE", "END", "IN",
    "IS", "LIKE", "BETWEEN", "UNION", "ALL", "DISTINCT", "WITH", "ASC", "DESC", "NULLS", "LAST", "FIRST",
}


def open_unions(items):
    """SQLite wants the members of a UNION without parentheses"""
    has = any(x.k == "id" and x.t.upper() == "UNION" for x in items)
    out = []
    for x in items:
        if x.k == "grp":
            x.items = open_unions(x.items)
            member = not out or (out[-1].k == "id" and out[-1].t.upper() in ("UNION", "ALL"))
            if has and member and x.items and x.items[0].k == "id" and x.items[0].t.upper() == "SELECT":
                out += x.items
                continue
        out.append(x)
    return out


class Translator:
    def __init__(self, dialect, spine=("2000-01-01", "2000-01-02"), today=None):
        self.dialect = dialect
        self.spine = spine
        self.today = today or "2024-01-01"

    def sql(self, text):
        items = tokenize(text)
        while items and items[-1].k == "op" and items[-1].t == ";":
            items.pop()
        return self.seq(open_unions(items))

    # date literal normalisation
    def lit(self, t):
        m = DATE_LIT.match(t)
        if m:
            return f"'{m.group(1)}T{m.group(2) or '00:00:00'}'"
        return t

    def arg_unit(self, items):
        """a bare unit keyword argument -> quoted"""
        if len(items) == 1 and items[0].k == "id" and items[0].t.upper() in UNITS:
            return f"'{items[0].t.upper()}'"
        if len(items) == 2 and items[0].k == "id" and items[0].t.upper() == "WEEK" and items[1].k == "grp":
            day = items[1].items[0].t.upper()
            return f"'WEEK({day})'"
        return self.seq(items)

    def cast(self, rendered, typ):
        """typ: list of items"""
        words = [x.t.upper() for x in typ if x.k == "id"]
        t = words[0] if words else ""
        fmt = None
        if "FORMAT" in words:
            i = next(i for i, x in enumerate(typ) if x.k == "id" and x.t.upper() == "FORMAT")
            fmt = typ[i + 1].t
            return f"FMT_({rendered}, {fmt})"
        if t in DATE_TYPES:
            return f"TS_({rendered})"
        if t == "DATE":
            return f"DATE_({rendered})"
        if t in ("STRING", "VARCHAR", "TEXT", "CHAR"):
            return f"CAST({rendered} AS TEXT)"
        if t in ("FLOAT64", "FLOAT", "DOUBLE", "REAL"):
            return f"CAST({rendered} AS REAL)"
        if t in ("DECIMAL", "NUMERIC", "BIGNUMERIC", "NUMBER"):
            return f"CAST({rendered} AS NUMERIC)"
        if t in ("INT64", "INT", "INTEGER", "BIGINT"):
            return f"CAST({rendered} AS INTEGER)"
        if t in ("BOOL", "BOOLEAN"):
            return f"({rendered})"
        raise SQLXError(f"cast type {typ}")

    def seq(self, items):
        return " ".join(t for t, _ in self.seq_parts(items))

    def seq_parts(self, items):
        """render a token sequence; returns list of (text, kind); operands are merged into one 'prim'."""
        out = []
        i = 0
        n = len(items)
        top_limit = None
        while i < n:
            x = items[i]
            if x.k == "grp":
                inner = x.items
                out.append(("(" + self.seq(inner) + ")", "prim"))
                i += 1
            elif x.k == "str":
                out.append((self.lit(x.t), "prim"))
                i += 1
            elif x.k == "num":
                out.append((x.t.replace("_", ""), "num"))
                i += 1
            elif x.k == "qid":
                out.append((x.t, "prim"))
                i += 1
            elif x.k == "id":
                u = x.t.upper()
                nxt = items[i + 1] if i + 1 < n else None
                if u == "TOP" and out and out[-1][0].upper().endswith("SELECT") and nxt is not None and (
                    nxt.k == "num" or (nxt.k == "grp" and len(nxt.items) == 1 and nxt.items[0].k == "num")
                ):
                    top_limit = nxt.t if nxt.k == "num" else nxt.items[0].t
                    i += 2
                    continue
                if u == "INTERVAL" and nxt is not None:
                    # INTERVAL '3' DAY | INTERVAL 3 MONTH | INTERVAL '1 day'
                    neg = nxt.k == "op" and nxt.t == "-"
                    if neg:
                        i += 1
                        nxt = items[i + 1]
                    val = ("-" if neg else "") + nxt.t.strip("'")
                    unit_tok = items[i + 2] if i + 2 < n else None
                    if unit_tok is not None and unit_tok.k == "id" and norm_unit(unit_tok.t) in UNITS:
                        unit, step = norm_unit(unit_tok.t), 3
                    else:
                        val, unit = val.split()
                        unit, step = norm_unit(unit), 2
                    i += step
                    if len(out) >= 2 and out[-1][0] in ("+", "-"):
                        op = out.pop()[0]
                        lhs = out.pop()
                        if lhs[1] not in ("prim", "num"):
                            raise SQLXError("interval operand")
                        out.append((f"ADDI_({lhs[0]}, '{unit}', {'-' if op == '-' else ''}{val})", "prim"))
                    else:
                        out.append((f"INTERVAL:{unit}:{val}", "interval"))
                    continue
                if u == "AT" and nxt is not None and nxt.up() == "TIME" and items[i + 2].up() == "ZONE":
                    tz = items[i + 3].t
                    lhs = out.pop()
                    out.append((f"ATTZ_({lhs[0]}, {tz})", "prim"))
                    i += 4
                    continue
                if u in ("CURRENT_DATE", "CURRENT_TIMESTAMP") or (
                    u in ("GETDATE", "NOW") and nxt is not None and nxt.k == "grp"
                ):
                    out.append((f"'{self.today}T00:00:00'", "prim"))
                    i += 2 if nxt is not None and nxt.k == "grp" and not nxt.items else 1
                    continue
                if nxt is not None and nxt.k == "grp" and u not in KEYWORDS | {"VALUES", "OVER", "TABLE"}:
                    out.append((self.func(u, x.t, nxt.items), "prim"))
                    i += 2
                    continue
                if u in KEYWORDS:
                    out.append((x.t, "kw"))
                    i += 1
                    continue
                # identifier chain a.b.c
                text = x.t
                i += 1
                while i + 1 < n and items[i].k == "op" and items[i].t == "." and items[i + 1].k in ("id", "qid", "op"):
                    text += "." + items[i + 1].t
                    i += 2
                out.append((text, "prim"))
            elif x.k == "op" and x.t == "::":
                typ = [items[i + 1]]
                i += 2
                if i < n and items[i].k == "grp":
                    i += 1
                lhs = out.pop()
                out.append((self.cast(lhs[0], typ), "prim"))
            elif x.k == "op" and x.t in ("+", "-"):
                nxt = items[i + 1] if i + 1 < n else None
                nxt2 = items[i + 2] if i + 2 < n else None
                ends = nxt2 is None or not (nxt2.k == "op" and nxt2.t in ("*", "/", "%", "::"))
                if (
                    nxt is not None and nxt.k == "num" and ends and out and out[-1][1] == "prim"
                    and re.match(r"(DATE_|DATE_TRUNC_|PLUS_)\(", out[-1][0])
                ):
                    lhs = out.pop()
                    out.append((f"PLUS_({lhs[0]}, {x.t if x.t == '-' else ''}{nxt.t})", "prim"))
                    i += 2
                else:
                    out.append((x.t, "op"))
                    i += 1
            elif x.k == "op" and x.t == "/":
                out.append(("* 1.0 /", "op"))
                i += 1
            else:
                out.append((x.t, "op"))
                i += 1
        if top_limit is not None:
            out.append((f"LIMIT {top_limit}", "kw"))
        return out

    def func(self, u, name, items):
        args = split_top(items, is_comma) if items else []
        if u == "CAST" or u == "TRY_CAST":
            idx = max(i for i, a in enumerate(items) if a.k == "id" and a.t.upper() == "AS")
            return self.cast(self.seq(items[:idx]), items[idx + 1 :])
        if u == "EXTRACT":
            idx = next(i for i, a in enumerate(items) if a.k == "id" and a.t.upper() == "FROM")
            if self.dialect == "BIGQUERY" and items[0].t.upper() == "WEEK":
                return f"EXTRACT_('SUNWEEK', {self.seq(items[idx + 1:])})"
            return f"EXTRACT_('{items[0].t.strip(chr(39)).upper()}', {self.seq(items[idx + 1:])})"
        if u in ("EXISTS",):
            return f"{name}({self.seq(items)})"
        if u in PART_FUNCS:
            r = [self.arg_unit(a) for a in args]
            if u in ("DATE_TRUNC", "DATETIME_TRUNC", "TIMESTAMP_TRUNC"):
                # (part, expr) everywhere except BigQuery's (expr, part)
                if self.dialect == "BIGQUERY":
                    r = [r[1], r[0]]
                return f"DATE_TRUNC_({r[0]}, {r[1]}, '{self.dialect}')"
            if u in ("DATEDIFF", "DATE_DIFF", "TIMESTAMPDIFF", "TIMESTAMP_DIFF"):
                if self.dialect == "BIGQUERY":  # (end, start, part)
                    r = [r[2], r[1], r[0]]
                return f"DATEDIFF_({', '.join(r)}, '{u if u == 'TIMESTAMP_DIFF' else self.dialect}')"
            if u == "DATEADD":
                return f"ADDI_({r[2]}, {r[0]}, {r[1]})"
            if u == "DATENAME":
                return f"DATENAME_({', '.join(r)})"
            return f"EXTRACT_({', '.join(r)})"
        if u == "DATE_ADD" and self.dialect == "BIGQUERY":
            base = self.seq(args[0])
            iv = self.seq_parts(args[1])[0][0]
            _, unit, val = iv.split(":")
            return f"ADDI_({base}, '{unit}', {val})"
        if u == "DATETIME" and len(args) == 2:
            return f"TOTZ_({self.seq(args[0])}, {self.seq(args[1])})"
        if u == "CONVERT_TIMEZONE":
            return f"TOTZ_({self.seq(args[1])}, {self.seq(args[0])})"
        if u in ("TO_CHAR", "DATE_FORMAT", "FORMAT_DATETIME"):
            a, b = self.seq(args[0]), self.seq(args[1])
            if u == "FORMAT_DATETIME" and self.dialect == "BIGQUERY":
                a, b = b, a
            return f"FMT_({a}, {b})"
        if u in ("ISNULL", "NVL", "IFNULL", "COALESCE"):
            return f"COALESCE({', '.join(self.seq(a) for a in args)})"
        if u == "EQUAL_NULL":
            return f"(({self.seq(args[0])}) IS ({self.seq(args[1])}))"
        if u in ("TO_NUMBER", "HASHTEXTEXTENDED"):
            return f"{'H_' if u != 'TO_NUMBER' else 'ID_'}({self.seq(args[0])})"
        if u in ("MD5", "FARM_FINGERPRINT", "FARMFINGERPRINT64"):
            return f"H_({self.seq(args[0])})"
        if u == "LEFT":
            return f"LEFT_({', '.join(self.seq(a) for a in args)})"
        if u == "FLOOR":
            return f"FLOOR_({self.seq(items)})"
        if u == "TRUNC":
            return f"TRUNC_({self.seq(items)})"
        if u == "AGE":
            return f"AGE_({', '.join(self.seq(a) for a in args)})"
        if u == "MEDIAN":
            return f"MEDIAN_({self.seq(items)})"
        return f"{name}({self.seq(items)})"


# LEFT is a keyword in joins and a function in T-SQL: handled before KEYWORDS
KEYWORDS.discard("LEFT")


SPINES = [
    "select dateadd(day, seq4(), '2000-01-01') as date from table(generator(rowcount => 365*40))",
    "select date from unnest(generate_date_array('2000-01-01', '2040-01-01')) as date",
    "select date from generate_series('2000-01-01'::date, '2040-01-01'::date, '1 day') as date",
]


def translate(sql, dialect, today="2024-01-01", spine_from="2000-01-01"):
    """spine_from bounds the number of date-spine rows that are materialised (the data starts later)."""
    repl = (
        "WITH RECURSIVE sp_(date) AS (SELECT '%sT00:00:00' UNION ALL SELECT ADDI_(date, 'DAY', 1) FROM sp_"
        " WHERE date < '%sT00:00:00') SELECT date FROM sp_"
    )
    has_spine = False
    for s in SPINES:
        if s in sql:
            has_spine = True
            sql = sql.replace(s, "select date from spine_ as date")
    out = Translator(dialect, today=today).sql(sql)
    return out, has_spine


class DB:
    def __init__(self):
        self.con = sqlite3.connect(":memory:")
        self.con.execute("PRAGMA case_sensitive_like=ON")
        c = self.con

        def fn(name, n, f):
            c.create_function(name, n, f, deterministic=True)

        fn("TS_", 1, nn(lambda v: fmt_ts(parse_ts(v))))
        fn("DATE_", 1, nn(lambda v: fmt_ts(trunc(parse_ts(v), "DAY"))))

        def date_trunc(p, v, dialect):
            p = p.upper()
            wf = 0
            if dialect == "BIGQUERY" and p == "WEEK":
                wf = 6  # BigQuery: WEEK begins on Sunday
            m = re.match(r"WEEK\((\w+)\)", p)
            if m:
                wf = [x.upper() for x in DAYSL].index(m.group(1))
                p = "WEEK"
            return fmt_ts(trunc(parse_ts(v), p, wf))

        fn("DATE_TRUNC_", 3, nn(date_trunc))

        def datediff(p, a, b, dialect):
            a, b = parse_ts(a), parse_ts(b)
            if dialect in ("TRINO", "DRUID", "TIMESTAMP_DIFF"):  # complete units
                return complete_diff(a, b, p)
            # T-SQL counts Sundays whatever DATEFIRST is; the others count ISO week starts
            wf = 6 if dialect in ("SQL_SERVER", "AZURE_SYNAPSE") else 0
            return boundary_diff(a, b, p, wf)

        fn("DATEDIFF_", 4, nn(datediff))
        fn("ADDI_", 3, nn(lambda v, u, n: fmt_ts(add_unit(parse_ts(v), u, int(n)))))
        fn("PLUS_", 2, nn(lambda v, n: fmt_ts(parse_ts(v) + dt.timedelta(days=n)) if isinstance(v, str) else v + n))
        fn("EXTRACT_", 2, nn(extract))
        fn("FMT_", 2, nn(date_format))

        def datename(p, v):
            d = parse_ts(v)
            return MONTHS[d.month - 1] if p.upper() == "MONTH" else DAYSL[d.weekday()]

        fn("DATENAME_", 2, nn(datename))
        fn("LEFT_", 2, nn(lambda s, n: s[:n]))
        fn("FLOOR_", 1, nn(lambda x: int(math.floor(x))))
        fn("TRUNC_", 1, nn(lambda x: int(x)))
        fn("H_", 1, nn(h40))
        fn("ID_", 1, lambda x: x)
        fn("AGE_", 2, nn(lambda b, a: "AGE:" + ",".join(map(str, age_parts(parse_ts(b), parse_ts(a))))))

        def totz(v, tz):
            d = parse_ts(v).replace(tzinfo=dt.timezone.utc).astimezone(ZoneInfo(tz)).replace(tzinfo=None)
            return fmt_ts(d)

        fn("TOTZ_", 2, nn(totz))

        def attz(v, tz):
            # naive at time zone 'UTC' -> aware (kept as +00), aware at time zone X -> naive
            if isinstance(v, str) and v.endswith("+00"):
                return totz(v[:-3], tz)
            if tz != "UTC":
                raise SQLXError("unsupported AT TIME ZONE use")
            return v + "+00"

        fn("ATTZ_", 2, nn(attz))
        c.create_aggregate("MEDIAN_", 1, Median)

    def load(self, table, cols, rows):
        self.con.execute(f"CREATE TABLE {table} ({', '.join(cols)})")
        if rows:
            self.con.executemany(f"INSERT INTO {table} VALUES ({','.join('?' * len(cols))})", rows)

    def attach_schema(self, name):
        self.con.execute(f"ATTACH ':memory:' AS {name}")

    def load_spine(self, first, last):
        self.con.execute("CREATE TABLE spine_ (date)")
        d, e = parse_ts(first), parse_ts(last)
        rows = []
        while d <= e:
            rows.append((fmt_ts(d),))
            d += dt.timedelta(days=1)
        self.con.executemany("INSERT INTO spine_ VALUES (?)", rows)

    def run(self, sql, dialect, today="2024-01-01"):
        text, _ = translate(sql, dialect, today=today)
        try:
            cur = self.con.execute(text)
            cols = [d[0] for d in cur.description]
            return cols, cur.fetchall()
        except sqlite3.Error as e:
            raise SQLXError(f"{e} in: {text}")

    def close(self):
        self.con.close()


# ------------------------------------------------------------------ skeleton
JOIN_WORDS = {"JOIN"}
STOP = {"WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "UNION"}


def skeleton(sql):
    """FROM/JOIN structure of the outermost SELECT: [(alias, kind, on_text)], first has kind 'FROM'."""
    items = tokenize(sql)
    return skeleton_items(items)


def _text(items):
    out = []
    for x in items:
        if x.k == "grp":
            out.append("(" + _text(x.items) + ")")
        else:
            out.append(x.t)
    s = " ".join(out)
    return s.replace(" . ", ".")


def skeleton_items(items):
    # position of the top-level FROM
    try:
        i = next(k for k, x in enumerate(items) if x.k == "id" and x.t.upper() == "FROM")
    except StopIteration:
        return []
    i += 1
    res, cur, kind, on, words = [], [], "FROM", None, []

    def flush():
        if cur:
            alias = next((c.t for c in reversed(cur) if c.k in ("id", "qid")), None)
            res.append((alias, kind, _text(on) if on is not None else None))

    while i < len(items):
        x = items[i]
        u = x.up()
        if (x.k == "id" and u in STOP) or (x.k == "op" and x.t == ";"):
            break
        if x.k == "id" and u in ("LEFT", "RIGHT", "FULL", "INNER", "CROSS", "OUTER"):
            words.append(u)
        elif x.k == "id" and u == "JOIN":
            flush()
            cur, on = [], None
            kind = " ".join(words + ["JOIN"])
            words = []
        elif x.k == "id" and u == "ON":
            on = []
        elif on is not None:
            on.append(x)
        else:
            cur.append(x)
        i += 1
    flush()
    return res


def ctes(sql):
    """{cte name: items} plus the final select's items under None"""
    items = tokenize(sql)
    res = {}
    i = 0
    if items and items[0].up() == "WITH":
        i = 1
        while i + 2 < len(items) and items[i].k in ("id", "qid") and items[i + 1].up() == "AS" and items[i + 2].k == "grp":
            res[items[i].t] = items[i + 2].items
            i += 3
            if i < len(items) and is_comma(items[i]):
                i += 1
    res[None] = items[i:]
    return res
