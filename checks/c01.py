"""C01: access grants guard every way to reach a field, a view or a dashboard."""
import re

import check
import tlc
import world
from hist import Q, W, dim, met, num, time

VIEWS = ["customers", "orders", "sessions", "accounts", "returns"]
GRANTS = [("g1", "team", ["red"]), ("g2", "team", ["red", "blue"]), ("g3", "region", ["west", "east"]), ("g4", "level", ["gold"])]


def T(v, n):
    return "${TABLE}." + f"{v}__{n}"


def fields():
    """[(view, definition, refs)]; a column named <view>__<field> stands for each field that has one of its own"""
    F = []

    def add(v, d, *refs):
        F.append((v, d, list(refs)))

    def d(v, n, **k):
        add(v, dim(n, sql=T(v, n), **k))

    c = "customers"
    add(c, num("customer_id", sql=T(c, "customer_id"), primary_key=True))
    d(c, "region", tags=["customer"])
    d(c, "tier")
    d(c, "age", type="number")
    add(c, dim("band", sql="${age}", type="tier", tiers=[0, 20]), "customers.age")
    add(c, dim("kind", sql="case when ${region} = 'w' then ${tier} else ${accounts.plan} end"), "customers.region", "customers.tier", "accounts.plan")
    add(c, time("created", sql=T(c, "created"), frames=("raw", "date", "month")))
    add(c, met("n_customers", "count_distinct", "${customer_id}"), "customers.customer_id")
    add(c, met("avg_age", "average", "${age}"), "customers.age")
    add(c, met("west_customers", "count_distinct", "${customer_id}", filters=[dict(field="region", value="west")]), "customers.customer_id", "customers.region")
    add(c, met("own", "max", T(c, "own")))
    o = "orders"
    add(o, num("order_id", sql=T(o, "order_id"), primary_key=True))
    d(o, "channel")
    d(o, "amount", type="number")
    d(o, "status", hidden=True)
    add(o, dim("label", sql="${channel} || ${customers.region}"), "orders.channel", "customers.region")
    add(o, dim("label2", sql="upper(${label})"), "orders.label")
    add(o, time("placed", sql=T(o, "placed"), frames=("raw", "date", "week", "month")))
    add(o, time("shipped", sql=T(o, "shipped"), frames=("raw", "date", "month")))
    add(o, dict(name="wait", field_type="dimension_group", type="duration", intervals=["day", "week"], sql_start="${placed_raw}", sql_end="${shipped_raw}"), "orders.placed", "orders.shipped")
    add(o, met("n_orders", "count"))
    add(o, met("count", "count"))
    add(o, met("revenue", "sum", "${amount}"), "orders.amount")
    add(o, met("best", "max", T(o, "best")))
    add(o, met("per_order", "number", "${revenue} / nullif(${n_orders}, 0)"), "orders.revenue", "orders.n_orders")
    add(o, met("per_order2", "number", "2 * ${per_order}"), "orders.per_order")
    add(o, met("per_head", "number", "${revenue} / nullif(${customers.n_customers}, 0)"), "orders.revenue", "customers.n_customers")
    add(o, met("running", "cumulative", measure="revenue"), "orders.revenue")
    add(o, met("web", "sum", T(o, "web"), filters=[dict(field="channel", value="web"), dict(field="customers.tier", value="-x")]), "orders.channel", "customers.tier")
    add(o, met("late", "max", T(o, "late"), filters=[dict(field="shipped_date", value="last week")]), "orders.shipped")
    add(o, met("stock", "sum", T(o, "stock"), non_additive_dimension=dict(name="shipped_raw", window_choice="max", window_groupings=["status"])), "orders.shipped", "orders.status")
    add(o, met("shipped_best", "max", T(o, "shipped_best"), canon_date="shipped"))
    add(o, met("visit_rate", "number", "${best} / nullif(${sessions.longest}, 0)", is_merged_result=True), "orders.best", "sessions.longest")
    s = "sessions"
    add(s, num("session_id", sql=T(s, "session_id"), primary_key=True))
    d(s, "source")
    d(s, "area")
    add(s, time("seen", sql=T(s, "seen"), frames=("raw", "date", "week", "month")))
    add(s, met("n_sessions", "count"))
    add(s, met("longest", "max", T(s, "longest")))
    a = "accounts"
    add(a, num("account_id", sql=T(a, "account_id"), primary_key=True))
    d(a, "plan")
    d(a, "city", tags=["place"])
    add(a, met("n_accounts", "count"))
    add(a, met("size", "sum", T(a, "size")))
    r = "returns"
    add(r, num("return_id", sql=T(r, "return_id"), primary_key=True))
    d(r, "ok")
    d(r, "reason")
    add(r, time("sent", sql=T(r, "sent"), frames=("raw", "date", "month")))
    add(r, met("worst", "max", T(r, "worst")))
    return F


FIELDS = fields()
IDS = [f"{v}.{d['name']}" for v, d, _ in FIELDS]
NUM = {x: k + 1 for k, x in enumerate(IDS)}
BOARDS = ["sales", "plain"]
# key fields carry the joins and the counting of rows; they are left without guards
OPEN = [k for k, x in enumerate(IDS) if x.endswith("_id")]


def project(place):
    import copy

    from metrics_layer.core.model.project import Project

    def req(n):
        return dict(required_access_grants=[GRANTS[g - 1][0] for g in sorted(place[n])]) if place[n] else {}

    idents = {
        "customers": [dict(name="customer_id", type="primary", sql="${TABLE}.k_customer", allowed_fanouts=["orders"]), dict(name="account_id", type="foreign", sql="${TABLE}.k_account")],
        "orders": [dict(name="order_id", type="primary", sql="${TABLE}.k_order"), dict(name="customer_id", type="foreign", sql="${TABLE}.k_customer")],
        "sessions": [dict(name="session_id", type="primary", sql="${TABLE}.k_session")],
        "accounts": [dict(name="account_id", type="primary", sql="${TABLE}.k_account")],
        "returns": [dict(name="return_id", type="primary", sql="${TABLE}.k_return"), dict(name="order_id", type="foreign", sql="${TABLE}.k_order")]}
    views = []
    for k, v in enumerate(VIEWS):
        y = dict(version=1, type="view", name=v, model_name="m", sql_table_name="db.t_" + v, identifiers=idents[v], fields=[],
                 sets=[dict(name="set_" + v, fields=["ALL_FIELDS*"])], **req(k))
        if v in DATE:
            y["default_date"] = DATE[v]
        if v == "returns":
            y["always_filter"] = [dict(field="ok", value="-B")]
        views.append(y)
    for k, (v, d, _) in enumerate(FIELDS):
        views[VIEWS.index(v)]["fields"].append(dict(copy.deepcopy(d), **req(len(VIEWS) + k)))
    boards = [dict(version=1, type="dashboard", name=b, label=b, layout="grid", elements=[], **req(len(VIEWS) + len(FIELDS) + k)) for k, b in enumerate(BOARDS)]
    model = dict(version=1, type="model", name="m", connection="c",
                 access_grants=[dict(name=n, user_attribute=a, allowed_values=x) for n, a, x in GRANTS],
                 mappings={"via": dict(fields=["orders.channel", "sessions.source"]), "zone": dict(fields=["customers.region", "sessions.area"])})
    return Project(models=[model], views=views, dashboards=boards)


def mql(q, **k):
    return dict(kind="mql", args=dict(sql=f"SELECT * FROM MQL({q})", **k))


def questions():
    """[(fields used, request)]"""
    R = []

    def r(uses, req):
        R.append((uses.split() if isinstance(uses, str) else uses, req))

    one = [("customers", "own"), ("orders", "best"), ("sessions", "longest"), ("accounts", "size"), ("returns", "worst")]
    # every field on its own, as a metric or a dimension, and every dimension as a condition, with a metric of its view
    for x, (v, d, refs) in zip(IDS, FIELDS):
        plus = ["returns.ok"] if v == "returns" else []
        own = f"{v}.{dict(one)[v]}"
        if d["field_type"] == "measure":
            r([x] + plus, Q([x]))
            if d["type"] != "cumulative":
                r([x, own] + plus, Q([own], having=[W(x, "greater_than", 1)]))
                r([x, own] + plus, Q([own], having=f"{x} > 1"))
                r([x, own] + plus, Q([own], order_by=[dict(field=x, sort="asc")]))
                r([x, own] + plus, mql(f"{own} HAVING {x} > 2"))
        elif d["field_type"] == "dimension_group":
            for t in (d.get("timeframes") or [i + "s" for i in d["intervals"]])[:3]:
                fid = f"{v}.{d['name']}_{t}" if d["type"] == "time" else f"{v}.{t}_{d['name']}"
                r([x] + plus, Q([], [fid]))
                r([x, own] + plus, Q([own], [fid]))
                if d["type"] == "time":
                    r([x, own] + plus, Q([own], [], where=[W(fid, "greater_than", "2024-01-01")]))
            r([x, own] + plus, Q([own], [f"{v}.{d['name']}"]))
        else:
            r([x] + plus, Q([], [x]))
            r([x] + plus, Q([], [d["name"]]))
            r([x, own] + plus, Q([own], [x], order_by=[dict(field=x)]))
            r([x, own] + plus, Q([own], [], where=[W(x, "is_not_null")]))
            r([x, own] + plus, Q([own], [], where=[dict(conditional="or", conditions=[W(x, "is_null"), W(own.split(".")[0] + "." + IDS[0].split(".")[1] if v == "customers" else x, "is_null")])]))
            r([x, own] + plus, Q([own], [], where="${" + x + "} is not null"))
            r([x, own] + plus, Q([own], [], where=x + " = 1"))
            r([x, own] + plus, mql(f"{own} BY {x}"))
            r([x, own] + plus, mql(f"{own} WHERE {x} is null"))
    b = "orders.best"
    for x in ("customers.region", "customers.tier", "customers.kind", "accounts.plan", "accounts.city"):
        r([b, x], Q([b], [x]))
        r([b, x], Q([b], [], where=[W(x, "equal_to", "a")]))
        r([b, x], Q([b], [], where="${" + x + "} = 'a'"))
        r([b, x, "orders.channel"], Q([b], ["orders.channel"], where=[W("orders.channel", "isin", ["a"]), dict(conditional="and", conditions=[W(x, "contains", "q")])]))
    for x in ("customers.region", "orders.channel", "accounts.plan"):
        r([b, x], Q([b], where=[dict(field=b, group_by=x, expression="greater_than", value=2)]))
    for x in ("orders.revenue", "orders.per_order", "orders.web"):
        r([b, "customers.customer_id", x], Q([b], where=[dict(field=x, group_by="customers.customer_id", expression="greater_than", value=2)]))
    # funnels
    def fun(a, z):
        return dict(steps=[[W(a, "equal_to", "x")], [W(z, "equal_to", "y")]], within=dict(value=3, unit="days"))

    for a, z in (("orders.channel", "orders.status"), ("orders.status", "customers.region"), ("orders.channel", "accounts.plan")):
        r(["orders.n_orders", "orders.placed", "customers.region", a, z], Q(["orders.n_orders"], [], funnel=fun(a, z)))
        r(["orders.n_orders", "orders.placed", "customers.region", a, z, "customers.tier"], Q(["orders.n_orders"], ["customers.tier"], funnel=fun(a, z)))
        r(["orders.n_orders", "orders.placed", "customers.region", a, z, "customers.tier"], Q(["orders.n_orders"], [], funnel=fun(a, z), where=[W("customers.tier", "is_null")]))
    # merged results
    r("orders.best sessions.longest orders.placed sessions.seen", Q(["orders.best", "sessions.longest"], ["date"]))
    r("orders.revenue sessions.n_sessions orders.placed sessions.seen", Q(["orders.revenue", "sessions.n_sessions"], ["orders.placed_month"]))
    r("orders.shipped_best sessions.n_sessions orders.shipped sessions.seen", Q(["orders.shipped_best", "sessions.n_sessions"], ["date"]))
    r("orders.best sessions.longest orders.channel sessions.source", Q(["orders.best", "sessions.longest"], ["via"]))
    r("orders.best sessions.longest orders.channel sessions.source customers.region sessions.area", Q(["orders.best", "sessions.longest"], ["via"], where=[W("zone", "equal_to", "a")]))
    r("orders.visit_rate orders.placed sessions.seen", Q(["orders.visit_rate"], ["date"]))
    r("orders.visit_rate orders.placed sessions.seen orders.channel sessions.source", Q(["orders.visit_rate"], ["orders.placed_month"], where=[W("via", "is_null")]))
    r("orders.best orders.channel", Q(["orders.best"], ["via"]))
    r("orders.best customers.region", Q(["orders.best"], ["zone"]))
    r("sessions.longest sessions.area", Q(["sessions.longest"], [], where=[W("zone", "is_null")]))
    r("orders.best orders.placed", Q(["orders.best"], ["date"]))
    r("orders.best orders.placed", Q(["orders.best"], [], where=[W("date", "matches", "last week")]))
    r("orders.shipped_best orders.shipped", Q(["orders.shipped_best"], ["date"]))
    r("orders.best orders.channel sessions.longest sessions.source orders.placed sessions.seen",
      dict(kind="sql", args=dict(merged_queries=[
          dict(metrics=["orders.best"], dimensions=["orders.channel", "orders.placed_date"]),
          dict(metrics=["sessions.longest"], dimensions=["sessions.source", "sessions.seen_date"],
               join_fields=[dict(field="sessions.source", source_field="orders.channel"), dict(field="sessions.seen_date", source_field="orders.placed_date")])])))
    r("orders.best orders.channel sessions.longest sessions.source sessions.area customers.tier",
      dict(kind="sql", args=dict(merged_queries=[
          dict(metrics=["orders.best"], dimensions=["orders.channel"], where=[W("customers.tier", "is_null")]),
          dict(metrics=["sessions.longest"], dimensions=["sessions.source"], where=[W("sessions.area", "is_null")], join_fields=[dict(field="sessions.source", source_field="orders.channel")])])))
    # cumulative metrics
    r("orders.running orders.placed", Q(["orders.running"], ["orders.placed_month"]))
    r("orders.running orders.placed customers.region", Q(["orders.running"], ["orders.placed_month", "customers.region"]))
    r("orders.running orders.best orders.placed", Q(["orders.running", "orders.best"], ["orders.placed_month"]))
    r("orders.stock orders.channel", Q(["orders.stock"], ["orders.channel"]))
    # others
    r("customers.region orders.channel", Q([], ["customers.region", "orders.channel"]))
    r("customers.region", dict(kind="tag", args="customer"))
    r("accounts.city", dict(kind="tag", args="place"))
    r("orders.best returns.worst orders.channel returns.ok", Q(["orders.best", "returns.worst"], ["orders.channel"]))
    r("orders.best customers.region orders.revenue", mql("orders.best BY customers.region ORDER BY orders.revenue desc"))
    r("orders.best customers.region orders.revenue sessions.longest sessions.seen", dict(kind="mql", args=dict(
        sql="SELECT a.x FROM MQL(orders.best, orders.revenue BY customers.region) as a JOIN MQL(sessions.longest BY sessions.seen_date) as b ON 1=1")))
    return R


RUNS = questions()
DATE = dict(customers="created", orders="placed", sessions="seen", returns="sent")


def soft(uses):
    """the dates the metrics among the fields and what they are made of are trended by"""
    seen, todo = set(), list(uses)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += FIELDS[NUM[x] - 1][2]
    r = set()
    for x in seen:
        v, d, _ = FIELDS[NUM[x] - 1]
        if d["field_type"] == "measure" and v in DATE:
            r.add(NUM[f"{v}.{d.get('canon_date') or DATE[v]}"])
    return sorted(r)
TABLE = re.compile(r"db\.t_(\w+)")
COL = re.compile(r"\b(customers|orders|sessions|accounts|returns)__(\w+)\b")


def answer(conn, req):
    try:
        if req["kind"] == "tag":
            return True, conn.project.get_field_by_tag(req["args"]).id()
        return True, conn.get_sql_query(**req["args"])
    except Exception as e:  # noqa: BLE001
        return False, f"{type(e).__name__} {e}"


def base_id(f):
    return NUM[f"{f.view.name}.{f.name}"]


def listing(fn):
    try:
        return sorted({base_id(f) for f in fn()})
    except Exception as e:  # noqa: BLE001
        if type(e).__name__ != "AccessDeniedOrDoesNotExistException":
            raise
        return []


def got(fn):
    try:
        return bool(fn())
    except Exception:  # noqa: BLE001
        return False


def expanded(k):
    v, d, _ = FIELDS[k]
    if d["field_type"] != "dimension_group":
        return IDS[k]
    return f"{v}.{d['name']}_{d['timeframes'][-1]}" if d["type"] == "time" else f"{v}.{d['intervals'][0]}s_{d['name']}"


def observe(conn, rng, base, nruns):
    p = conn.project
    lists = []

    def put(kind, view, hidden, fn):
        lists.append(dict(kind=kind, view=view, hidden=hidden, got=listing(fn)))

    todo = [
        lambda: put("all", 0, False, conn.list_fields),
        lambda: put("all", 0, True, lambda: conn.list_fields(show_hidden=True)),
        lambda: put("all", 0, True, lambda: p.fields(expand_dimension_groups=True)),
        lambda: put("measures", 0, False, conn.list_metrics),
        lambda: put("dimensions", 0, True, lambda: conn.list_dimensions(show_hidden=True)),
    ] + [(lambda k, v: lambda: put("all", k + 1, True, lambda: conn.list_fields(v, show_hidden=True)))(k, v) for k, v in enumerate(VIEWS)] \
      + [(lambda k, v: lambda: put("measures", k + 1, False, lambda: conn.list_metrics(view_name=v)))(k, v) for k, v in enumerate(VIEWS)]
    rng.shuffle(todo)
    for t in todo[:7]:
        t()
    gets = [dict(what="view", n=k + 1, ok=got(lambda: conn.get_view(v))) for k, v in enumerate(VIEWS)]
    gets += [dict(what="board", n=k + 1, ok=got(lambda: conn.get_dashboard(b))) for k, b in enumerate(BOARDS)]
    for k in range(len(FIELDS)):
        x = expanded(k)
        how = rng.choice([lambda: conn.get_field(x), lambda: p.get_field(x), lambda: p.does_field_exist(x), lambda: p.get_field(x.split(".")[1].upper(), x.split(".")[0]),
                          lambda: p.get_field_by_name(IDS[k].split(".")[1], IDS[k].split(".")[0]), lambda: conn.get_field(x.split(".")[1])])
        gets.append(dict(what="field", n=k + 1, ok=got(how)))
    reachf, reachv = [], []
    for x in rng.sample([i for i in IDS if not i.endswith(("placed", "shipped", "wait", "created", "seen", "sent"))], 2):
        try:
            reachf += [base_id(f) for f in p.joinable_fields([p.get_field(x)], True)]
        except Exception:  # noqa: BLE001
            pass
    for v in rng.sample(VIEWS, 2):
        try:
            reachv += [VIEWS.index(x) + 1 for x in p.get_joinable_views(v)] if got(lambda: conn.get_view(v)) else []
        except Exception:  # noqa: BLE001
            pass
    runs, texts = [], []
    for k in rng.sample(range(len(RUNS)), nruns):
        uses, req = RUNS[k]
        ok, text = answer(conn, req)
        bok, btext = base(k)
        runs.append(dict(uses=[NUM[x] for x in uses], same=(ok, text) == (bok, btext), ok=ok, base=bok,
                         cols=sorted({NUM[f"{a}.{b}"] for a, b in COL.findall(text)}) if ok else [],
                         tabs=sorted({VIEWS.index(t) + 1 for t in TABLE.findall(text)}) if ok else [],
                         soft=soft(uses), path=sorted({VIEWS.index(t) + 1 for t in TABLE.findall(btext)}) if bok else []))
        texts.append((k, text, btext))
    sets = sorted({VIEWS.index(s.view_name) + 1 for s in p.sets()} | {k + 1 for k, v in enumerate(VIEWS) if p.get_set("set_" + v, v)})
    return dict(lists=lists, gets=gets, runs=runs, sets=sets, reachf=sorted(set(reachf)), reachv=sorted(set(reachv)),
                views=sorted(VIEWS.index(v.name) + 1 for v in conn.list_views()),
                boards=sorted(BOARDS.index(d.name) + 1 for d in conn.list_dashboards())), texts


def user(u, rng):
    if u["none"]:
        return None
    d = {a["attr"]: a["value"] for a in u["attrs"]}
    for a in ("team", "region", "level", "other"):
        if a not in d and rng.random() < 0.2:
            d[a] = None     # an attribute without a value is no attribute
    return d


def job(c, case, seed, nruns):
    import random

    rng = random.Random(seed)
    place = [set(x) if k - len(VIEWS) not in OPEN else set() for k, x in enumerate(case["place"])]
    base_conn = world.layer(project([set()] * len(place)), "SNOWFLAKE")
    memo = {}

    def base(k):
        if k not in memo:
            memo[k] = answer(base_conn, RUNS[k][1])
        return memo[k]

    nv, nf = len(VIEWS), len(FIELDS)
    req = [sorted(x) for x in place]
    w = dict(grants=[dict(attr=a, allowed=x) for _, a, x in GRANTS], views=[dict(req=req[k]) for k in range(nv)],
             fields=[dict(view=VIEWS.index(v) + 1, req=req[nv + k], refs=[NUM[x] for x in refs], hidden=bool(d.get("hidden")), measure=d["field_type"] == "measure")
                     for k, (v, d, refs) in enumerate(FIELDS)], boards=[dict(req=req[nv + nf + k]) for k in range(len(BOARDS))])
    conn = world.layer(project(place), "SNOWFLAKE")
    out = []
    for u in case["users"]:
        real = user(u, rng)
        if rng.random() < 0.5:
            conn.set_user(real)
        else:
            conn.project.set_user(real)
        o, texts = observe(conn, rng, base, nruns)
        out.append((dict(w=w, u=u, **o), dict(user=real, place={(VIEWS + IDS + BOARDS)[k]: r for k, r in enumerate(req) if r}), texts))
    return out


def body(c):
    c.assumptions += ["no access filters in these models, so an answer in reach is the text answered without a user",
                      "key fields are not guarded", "a question in reach whose join path needs a view out of reach may be refused or joined otherwise"]
    import hist

    r = tlc.generate("GrantsModel", constants=dict(NViews=1, NFields=2, NBoards=0, Values='{"x"}', Attrs="{}", NUsers=1, MaxPut=1, Who="{}"), init="InitLaw", nxt="NextLaw",
                     invariants=("NoUserReachesAll", "GuardedViewHidesItsFields", "ReferringNeedsReferred", "MoreGrantsFewerFields"), workers=8)
    if r.violated:
        raise tlc.TLCError("law of Grants: " + r.violated)
    c.tlc("Grants: laws", r)
    n, nruns = (36, 80) if c.quick else (400, len(RUNS))
    cases = []
    for k, most in enumerate((1, 3, 8)):
        g = tlc.generate("GrantsModel", constants=dict(NViews=len(VIEWS), NFields=len(FIELDS), NBoards=len(BOARDS), Values='{"", "red", "blue", "west", "gold", "Red", "x"}',
                                                       Attrs="{}", NUsers=4, MaxPut=most, Who="{}"),
                         simulate=n // 2 if k else n, depth=120, seed=c.seed * 101 + k, invariants=("Emit",))
        c.tlc("Grants: drawn", g)
        cases += [x for i, x in enumerate(g.cases) if x not in g.cases[:i]]
    jobs = [(job, (None, case, c.seed * 10007 + i, nruns)) for i, case in enumerate(cases)]
    obs, meta = [], []
    for out in hist.fan_out(jobs):
        for o, m, texts in out:
            obs.append(o)
            meta.append((m, texts))
    r = tlc.judge("GrantsTrace", obs)
    c.tlc("GrantsTrace", r)
    c.traces += len(cases)
    runs = [x for o in obs for x in o["runs"]]
    c.count("grants", placements=len(cases), users=len(obs), questions=len(runs), answered=sum(x["ok"] for x in runs), refused=sum(x["base"] and not x["ok"] for x in runs),
            kinds_of_question=len(RUNS), without_answer_for_anyone=len({k for m, t in meta for (k, _, _), x in zip(t, o["runs"]) if not x["base"]}))
    for i, v in r.verdicts:
        what, k, clause = v.split(" ", 2)
        m, texts = meta[i]
        d = dict(m)
        if what == "run":
            q, text, btext = texts[int(k) - 1]
            d.update(uses=RUNS[q][0], question=RUNS[q][1], got=text[:700], base=btext[:400])
            key = f"{clause}|{q}"
        else:
            d.update(what=obs[i]["lists"][int(k) - 1] if what == "list" else obs[i]["gets"][int(k) - 1] if what == "get" else what)
            if what == "get":
                d["object"] = (VIEWS if d["what"]["what"] == "view" else BOARDS if d["what"]["what"] == "board" else IDS)[d["what"]["n"] - 1]
            key = f"{clause}|{d.get('object', what)}"
        c.violation(clause, d, key=key)
    if obs:
        c.sample(dict(user=meta[0][0]["user"], place=meta[0][0]["place"], questions=len(obs[0]["runs"])))


check.main("C01", body)
