"""C26: a reference resolves to the one field it denotes, or is refused."""
import random
import re

import check
import tlc
import world

FLAT = ["a", "b", "a_date", "a_week", "date", "day_day_of_week", "days_b", "weeks_b", "count", "a_week_of_year", "week_a"]
BASES = ["a", "b", "day", "week", "a_date"]
TFS = ["raw", "date", "week", "day_of_week", "week_of_year"]
IVS = ["day", "week"]
MARK = re.compile(r"\bm_(\d+)_(\d+)\b")


def text(f, k):
    return f"{f['name']}_{f['frames'][k]}" if f["kind"] == "time" else f"{f['frames'][k]}s_{f['name']}" if f["kind"] == "duration" else f["name"]


def cased(rng, s):
    return rng.choice([s, s, s.upper(), s.title(), "".join(x.upper() if rng.random() < 0.4 else x for x in s)])


def project(w, rng, within=None):
    from metrics_layer.core.model.project import Project

    views = []
    for v, x in enumerate(w):
        fs = [dict(name="zz", field_type="dimension", type="string", sql="${TABLE}.zz"), dict(name="zm", field_type="measure", type="max", sql="${TABLE}.zm")]
        for k, f in enumerate(x["fields"]):
            m = "${TABLE}." + f"m_{v + 1}_{k + 1}"
            d = dict(name=cased(rng, f["name"]), hidden=f["hidden"])
            if f["kind"] == "plain":
                d.update(dict(field_type="measure", type="max", sql=m) if f["measure"] else dict(field_type="dimension", type="string", sql=m))
            elif f["kind"] == "time":
                d.update(field_type="dimension_group", type="time", timeframes=f["frames"], sql=m)
            else:
                d.update(field_type="dimension_group", type="duration", intervals=f["frames"], sql_start=m, sql_end="${TABLE}.z_end")
            if f["denied"]:
                d["required_access_grants"] = ["red"]
            fs.append(d)
        if within and within[0] == v + 1:
            fs.append(dict(name="zx", field_type="dimension", type="string", sql="f(${" + within[1] + "})"))
        y = dict(version=1, type="view", name=f"v{v + 1}", model_name="m", sql_table_name=f"t{v + 1}", fields=fs,
                 identifiers=[dict(name=f"k{v + 1}", type="primary", sql="${TABLE}.k")])
        if x["denied"]:
            y["required_access_grants"] = ["red"]
        views.append(y)
    p = Project(models=[dict(version=1, type="model", name="m", connection="c",
                             access_grants=[dict(name="red", user_attribute="team", allowed_values=["red"])])], views=views)
    conn = world.layer(p, "SNOWFLAKE")
    conn.set_user({"team": "blue"})
    return conn


def denotation(w, f):
    """of a Field"""
    v = int(f.view.name[1:])
    d = str(f._definition.get("sql") or f._definition.get("sql_start") or "")
    m = MARK.search(d)
    if not m:
        return [v, 0, 0] if f.name == "count" else [99, 0, 0]
    k = int(m.group(2))
    spec = w[v - 1]["fields"][k - 1]
    if spec["kind"] == "plain" or f.dimension_group is None:
        return [v, k, 0]
    g = f.dimension_group if spec["kind"] == "time" else f.dimension_group[:-1] if f.dimension_group.endswith("s") else "?"
    return [v, k, spec["frames"].index(g) + 1 if g in spec["frames"] else 98]


def in_sql(w, sql, home, aliased=True):
    m = {(int(a), int(b)) for a, b in MARK.findall(sql)}
    if not m:
        return [home, 0, 0] if "COUNT" in sql.upper() else [97, 0, 0]
    if len(m) > 1:
        return [96, 0, 0]
    v, k = m.pop()
    spec = w[v - 1]["fields"][k - 1]
    if spec["kind"] == "plain":
        return [v, k, 0] if not aliased or re.search(rf"\bas v{v}_{text(spec, 0)}\b", sql) else [95, 0, 0]
    if not aliased:
        return [v, k, None]
    hit = [j + 1 for j in range(len(spec["frames"])) if re.search(rf"\bas v{v}_{text(spec, j)}\b", sql)]
    return [v, k, hit[0]] if len(hit) == 1 else [94, 0, 0]


def none(fn):
    from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, QueryError
    from metrics_layer.core.exceptions import JoinError

    try:
        return fn()
    except (QueryError, JoinError, AccessDeniedOrDoesNotExistException, StopIteration):
        return [0, 0, 0]


def observe(w, seed, n):
    rng = random.Random(seed)
    conn = project(w, rng)
    p = conn.project
    model = p.models()[0]
    texts = sorted({text(f, k) for x in w for f in x["fields"] for k in range(max(1, len(f["frames"])))} | {f["name"] for x in w for f in x["fields"]})
    texts += ["count", "a_month", "months_a", "nope", "a_", "_a", "days_a_date"]
    refs = []

    for _ in range(n):
        t, v = rng.choice(texts), rng.choice([0, 0] + list(range(1, len(w) + 1)) * 2)
        home = rng.randrange(1, len(w) + 1)
        name = cased(rng, t)
        ref = f"v{v}.{name}" if v else name
        way = rng.choice(["field", "field", "by name", "metric", "dimension", "select measure", "select dimension", "exists", "condition", "having", "within"])
        if t == "count" and way == "within" or v == 0 and t in ("date", "week", "day") and way in ("select measure", "select dimension", "condition", "having"):
            continue        # in a query these words alone are mappings
        if way == "field":
            how = rng.choice([lambda: p.get_field(ref), lambda: conn.get_field(ref), lambda: p.get_field(ref, model=model)]
                             + ([lambda: p.get_field(name, f"v{v}"), lambda: p.get_field(ref, f"v{v}"), lambda: conn.get_field(name, view_name=f"v{v}")] if v else []))
            g = none(lambda: denotation(w, how()))
        elif way == "exists":
            g = none(lambda: [1, 1, 1] if p.does_field_exist(ref) else [0, 0, 0])
        elif way == "by name":
            g = none(lambda: denotation(w, p.get_field_by_name(ref)))
        elif way in ("metric", "dimension"):
            fn = conn.get_metric if way == "metric" else conn.get_dimension
            g = none(lambda: denotation(w, fn(ref) if not v or rng.random() < 0.5 else fn(name, f"v{v}")))
        elif way == "select measure":
            g = none(lambda: in_sql(w, conn.get_sql_query(metrics=[ref], dimensions=[]), v))
        elif way == "select dimension":
            g = none(lambda: in_sql(w, conn.get_sql_query(metrics=[], dimensions=[ref]), v))
        elif way == "condition":
            g = none(lambda: in_sql(w, conn.get_sql_query(metrics=[], dimensions=[f"v{home}.zz"], where=[dict(field=ref, expression="is_null")]), home, False))
        elif way == "having":
            g = none(lambda: in_sql(w, conn.get_sql_query(metrics=[f"v{home}.zm"], dimensions=[], having=[dict(field=ref, expression="is_null")]), home, False))
        else:
            c2 = project(w, random.Random(seed), (home, ref))
            g = none(lambda: in_sql(w, c2.get_sql_query(metrics=[], dimensions=[f"v{home}.zx"]), home, False))
        if g[2] is None:
            # which frame: the one whose own text appears
            spec = w[g[0] - 1]["fields"][g[1] - 1]
            fid = [f"v{g[0]}.{text(spec, j)}" for j in range(len(spec["frames"]))]
            g = [g[0], g[1], fid.index(f"v{g[0]}.{t}") + 1 if f"v{g[0]}.{t}" in fid else 93]
        refs.append(dict(way=way, v=v, name=t, got=g, home=home, ref=ref))
    return refs


def body(c):
    c.assumptions += ["the names of views are written as declared", "a reference is refused by a QueryError, JoinError, AccessDenied... or StopIteration"]
    import hist

    nw, n = (300, 60) if c.quick else (2500, 160)
    K = dict(NViews=2, NFields=5, Flat=hist_set(FLAT), Bases=hist_set(BASES), TimeFrames=hist_set(TFS), Intervals=hist_set(IVS))
    r = tlc.generate("NamesModel", constants=K, simulate=nw, depth=12, seed=c.seed * 31 + 7, invariants=("Emit", "Qualify", "BareNeedsUnique"))
    if r.violated:
        raise tlc.TLCError("law of Names: " + r.violated)
    c.tlc("Names: drawn", r)
    cases = [x for i, x in enumerate(r.cases) if x not in r.cases[:i]]
    rng = random.Random(c.seed)
    for w in cases:
        if rng.random() < 0.15:
            w[rng.randrange(len(w))]["denied"] = True
    refs = hist.fan_out([(observe, (w, c.seed * 1009 + i, n)) for i, w in enumerate(cases)])
    obs = [dict(w=w, refs=[{k: x for k, x in q.items() if k != "ref"} for q in rr]) for w, rr in zip(cases, refs)]
    r = tlc.judge("NamesTrace", obs)
    c.tlc("NamesTrace", r)
    c.traces += len(obs)
    flat = [x for rr in refs for x in rr]
    c.count("names", projects=len(obs), references=len(flat), resolved=sum(x["got"][0] > 0 for x in flat))
    for i, v in r.verdicts:
        k, clause = v.split(" ", 1)
        q = refs[i][int(k) - 1]
        c.violation(clause, dict(reference=q, world=[[dict(text=[text(f, j) for j in range(max(1, len(f["frames"])))], **{a: f[a] for a in ("kind", "measure", "hidden", "denied")}) for f in x["fields"]] for x in cases[i]]),
                    key=clause)
    c.sample(dict(world=cases[0], references=refs[0][:3]))


def hist_set(xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


check.main("C26", body)
