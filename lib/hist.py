"""A rich project, the requests that can be made of it, and the running of histories in processes of their own."""
import copy
import hashlib
import json
import multiprocessing
import os
import pickle
import sys

import world  # noqa: F401  (puts /repo first on the path)

USERS = {0: None, 1: {"team": "red"}, 2: {"team": "blue", "region": "west"}, 3: {"region": "west, east"}, 4: {"other": "x"}}
ZONES = {0: None, 1: "America/New_York", 2: "Asia/Tokyo"}


def dim(name, sql=None, **k):
    return dict(dict(name=name, field_type="dimension", type="string", sql=sql or "${TABLE}." + name), **k)


def num(name, **k):
    return dim(name, type="number", **k)


def met(name, type, sql=None, **k):
    d = dict(name=name, field_type="measure", type=type, **k)
    if sql:
        d["sql"] = sql
    return d


def time(name, frames=("raw", "time", "date", "week", "month", "quarter", "year", "day_of_week"), **k):
    return dict(dict(name=name, field_type="dimension_group", type="time", sql="${TABLE}." + name, timeframes=list(frames)), **k)


def base_defs():
    models = [dict(
        version=1, type="model", name="m", connection="c", week_start_day="sunday",
        access_grants=[dict(name="red_only", user_attribute="team", allowed_values=["red"]),
                       dict(name="any_team", user_attribute="team", allowed_values=["red", "blue"])],
        mappings={"channel": dict(fields=["orders.channel", "sessions.source"]),
                  "area": dict(fields=["customers.region", "sessions.area"])})]
    views = [
        dict(version=1, type="view", name="customers", model_name="m", sql_table_name="db.customers", default_date="created",
             sets=[dict(name="main", fields=["customers.region", "customers.tier", "customers.n_customers"]),
                   dict(name="more", fields=["main*", "-customers.tier", "customers.created_date"])],
             identifiers=[dict(name="customer_id", type="primary", sql="${customer_id}", allowed_fanouts=["orders"]),
                          dict(name="account_id", type="foreign", sql="${account_id}")],
             fields=[num("customer_id", primary_key=True), num("account_id"), dim("region", tags=["customer"]),
                     dim("tier", required_access_grants=["red_only"]), num("age"),
                     dim("band", sql="${age}", type="tier", tiers=[0, 20, 40]),
                     dim("kind", sql="case when ${region} = 'west' then ${tier} else ${accounts.plan} end"),
                     time("created"), dim("vip", type="yesno", sql="${age} > 60"),
                     met("n_customers", "count_distinct", "${customer_id}"), met("avg_age", "average", "${age}"),
                     met("west_customers", "count_distinct", "${customer_id}", filters=[dict(field="region", value="west")]),
                     met("sum_spend", "sum", "${orders.amount}", canon_date="created")]),
        dict(version=1, type="view", name="orders", model_name="m", sql_table_name="db.orders", default_date="placed",
             access_filters=[dict(field="customers.region", user_attribute="region")],
             identifiers=[dict(name="order_id", type="primary", sql="${order_id}"),
                          dict(name="customer_id", type="foreign", sql="${customer_id}")],
             fields=[num("order_id", primary_key=True), num("customer_id"), dim("channel"), num("amount"),
                     dim("status", required_access_grants=["any_team"]),
                     dim("label", sql="${channel} || ${TABLE}.suffix || ${customers.region}"),
                     time("placed"), time("shipped", frames=("raw", "date", "week", "month")),
                     dict(name="wait", field_type="dimension_group", type="duration", intervals=["day", "week"],
                          sql_start="${placed_raw}", sql_end="${shipped_raw}"),
                     met("n_orders", "count"), met("revenue", "sum", "${amount}"),
                     met("per_order", "number", "${revenue} / nullif(${n_orders}, 0)"),
                     met("per_head", "number", "${revenue} / nullif(${customers.n_customers}, 0)"),
                     met("running", "cumulative", measure="revenue"),
                     met("running_orders", "cumulative", measure="n_orders", update_where_timeframe=True),
                     met("shipped_revenue", "sum", "${amount}", canon_date="shipped"),
                     met("late", "sum", "${amount}", filters=[dict(field="placed_date", value="last week")]),
                     met("stock", "sum", "${amount}", non_additive_dimension=dict(
                         name="placed_raw", window_choice="max", window_groupings=["channel"], nulls_are_equal=True)),
                     met("stock_now", "sum", "${amount}", non_additive_dimension=dict(
                         name="placed_date", window_choice="max", window_aware_of_query_dimensions=False)),
                     met("visit_rate", "number", "${revenue} / nullif(${sessions.n_sessions}, 0)", is_merged_result=True)]),
        dict(version=1, type="view", name="sessions", model_name="m", sql_table_name="db.sessions", default_date="seen",
             identifiers=[dict(name="session_id", type="primary", sql="${session_id}")],
             fields=[num("session_id", primary_key=True), dim("source"), dim("area"), time("seen"),
                     num("length"), met("n_sessions", "count"), met("sum_length", "sum", "${length}"),
                     met("live", "count", filters=[dict(field="length", value=">3")])]),
        dict(version=1, type="view", name="accounts", model_name="m", sql_table_name="db.accounts",
             required_access_grants=["any_team"],
             identifiers=[dict(name="account_id", type="primary", sql="${account_id}"),
                          dict(name="owner_id", type="foreign", sql="${owner_id}")],
             fields=[num("account_id", primary_key=True), num("owner_id"), dim("plan", hidden=True), met("n_accounts", "count")]),
        dict(version=1, type="view", name="owners", model_name="m", sql_table_name="db.owners",
             identifiers=[dict(name="owner_id", type="primary", sql="${owner_id}", join_as="boss")],
             fields=[num("owner_id", primary_key=True), dim("title"), met("n_owners", "count")]),
        dict(version=1, type="view", name="returns", model_name="m", sql_table_name="db.returns", default_date="sent",
             always_filter=[dict(field="ok", value="-B")], required_access_grants=["red_only"],
             identifiers=[dict(name="return_id", type="primary", sql="${return_id}"),
                          dict(name="order_id", type="foreign", sql="${order_id}")],
             fields=[num("return_id", primary_key=True), num("order_id"), dim("ok"), dim("reason"), time("sent"),
                     met("n_returns", "count")]),
    ]
    dashboards = [
        dict(version=1, type="dashboard", name="sales", label="Sales", layout="grid",
             elements=[dict(title="a", type="plot", model="m", metric="orders.revenue", slice_by=["customers.region"])],
             filters=[dict(field="orders.channel", value="web")]),
        dict(version=1, type="dashboard", name="secret", label="Secret", layout="grid", required_access_grants=["red_only"],
             elements=[dict(title="b", type="plot", model="m", metrics=["orders.n_orders", "customers.n_customers"], slice_by=[])]),
    ]
    return models, views, dashboards


# fields that histories take away and put back, in two versions each; number -> (view, name, versions)
MOVING = {
    1: ("orders", "revenue", [met("revenue", "sum", "${amount}"), met("revenue", "sum", "${amount} + ${customers.age}")]),
    2: ("orders", "channel", [dim("channel"), dim("channel", sql="${customers.region} || ${TABLE}.c")]),
    3: ("sessions", "extra", [met("extra", "max", "${length}"), dim("extra")]),
    4: ("customers", "region", [dim("region", tags=["customer"]), dim("region", sql="${TABLE}.region2", hidden=True)]),
    5: ("accounts", "plan", [dim("plan", hidden=True), dim("plan", required_access_grants=["red_only"])]),
}


def replacement(k):
    """definitions put in place of others for a while"""
    models, views, dashboards = base_defs()
    v = {x["name"]: x for x in views}
    if k == 1:      # customers join nothing any more, orders lose a field
        v["customers"]["identifiers"] = []
        v["orders"]["fields"] = [f for f in v["orders"]["fields"] if f["name"] != "status"]
        return [v["customers"], v["orders"]]
    if k == 2:      # another week start and no mappings
        m = models[0]
        m["week_start_day"] = "wednesday"
        m["mappings"] = {}
        return [m]
    if k == 3:      # a broken view, a view of another name, another dashboard
        v["sessions"]["fields"].append(met("bad", "sum", "${no_such_field}"))
        n = dict(version=1, type="view", name="visits", model_name="m", sql_table_name="db.visits",
                 identifiers=[dict(name="customer_id", type="foreign", sql="${customer_id}")],
                 fields=[num("visit_id", primary_key=True), num("customer_id"), met("n_visits", "count")])
        d = dict(dashboards[0], elements=[dict(title="a", type="plot", model="m", metric="orders.nothing", slice_by=[])])
        return [v["sessions"], n, d, {"type": "other", "name": "x"}, "text"]
    if k == 4:      # sessions joined to customers, region redefined
        v["sessions"]["identifiers"].append(dict(name="customer_id", type="foreign", sql="${session_id}"))
        v["customers"]["fields"] = [f if f["name"] != "region" else dim("region", sql="upper(${TABLE}.region)")
                                    for f in v["customers"]["fields"]]
        return [v["sessions"], v["customers"]]
    raise KeyError(k)


NREPL = 4


def apply_replacement(defs, repl):
    models, views, dashboards = defs
    out = []
    for kind, have in (("model", models), ("view", views), ("dashboard", dashboards)):
        new = [r for r in repl if isinstance(r, dict) and r.get("type") == kind]
        names = {r["name"] for r in new}
        out.append([h for h in have if h["name"] not in names] + new)
    return tuple(out)


# ------------------------------------------------------------------ requests
def W(field, expression, value=None):
    return dict(field=field, expression=expression, value=value)


def Q(metrics=(), dimensions=(), **k):
    return dict(kind="sql", args=dict(metrics=list(metrics), dimensions=list(dimensions), **k))


def C(what, *args, **kw):
    return dict(kind=what, args=dict(args=list(args), kw=kw))


def requests():
    R = [
        Q(["revenue"], ["customers.region"], where=[W("orders.placed_date", "greater_or_equal_than", "2024-01-01")]),
        Q(["orders.revenue", "orders.n_orders"], ["orders.placed_week"], where=[W("orders.placed_raw", "matches", "last week")]),
        Q(["n_orders"], ["orders.status", "channel"], having=[W("orders.revenue", "greater_than", 3)], order_by=[dict(field="orders.revenue", sort="asc")]),
        Q(["orders.per_head"], ["customers.tier"], where=[W("orders.channel", "isin", ["web", "app"])]),
        Q(["orders.running"], ["orders.placed_month"], where=[W("orders.placed_raw", "matches", "last 3 months")]),
        Q(["orders.running", "orders.running_orders", "orders.n_orders"], ["date"], where=[W("date", "greater_than", "2024-01-02")]),
        Q(["orders.revenue", "sessions.n_sessions"], ["date"]),
        Q(["orders.revenue", "sessions.n_sessions"], ["channel"], where=[W("channel", "not_equal_to", "x")]),
        Q(["orders.visit_rate"], ["orders.placed_month"], where=[W("area", "isin", ["a", "b"])]),
        Q(["orders.stock", "orders.revenue"], ["orders.channel"]),
        Q(["orders.stock"], ["orders.placed_month", "customers.region"]),
        Q(["orders.stock_now"], [], where=[W("orders.status", "is_null")]),
        Q(["orders.late"], ["customers.band"]),
        Q(["customers.avg_age", "orders.revenue"], ["customers.created_quarter", "boss.title"]),
        Q([], ["customers.region", "accounts.plan"]),
        Q([], ["orders.label", "customers.kind"]),
        Q(["returns.n_returns"], ["returns.reason"], where=[]),
        Q(["returns.n_returns", "orders.revenue"], ["orders.channel"], where=[W("returns.reason", "contains", "x")]),
        Q(["sessions.extra"], ["sessions.source"]),
        Q(["sessions.live"], ["sessions.seen_week", "sessions.extra"], where="${sessions.source} = 'a'", limit=5),
        Q(["customers.n_customers"], ["customers.vip"], where=[dict(conditional="or", conditions=[
            W("customers.region", "equal_to", "west"), dict(conditional="and", conditions=[W("customers.age", "less_than", 5), W("customers.tier", "is_not_null")])])]),
        Q(["orders.n_orders"], ["orders.channel"], where=[dict(field="orders.revenue", group_by="customers.customer_id", expression="greater_than", value=2)]),
        Q(["orders.n_orders"], [], where=[W("orders.placed_raw", "matches", "week to date"), W("customers.created_date", "matches", "last 2 weeks")]),
        Q(["orders.n_orders"], [], funnel=dict(steps=[[W("orders.channel", "equal_to", "web")], [W("orders.channel", "equal_to", "app")]], within=dict(value=3, unit="days")), where=[W("customers.region", "equal_to", "west")]),
        dict(kind="mql", args=dict(sql="SELECT * FROM MQL(orders.revenue, n_orders BY customers.region WHERE ${orders.channel} = 'web' ORDER BY orders.revenue desc)")),
        dict(kind="mql", args=dict(sql="SELECT * FROM MQL(revenue, sessions.n_sessions BY channel WHERE area = 'x' and ${orders.placed_date} > '2024-01-01')")),
        Q(["orders.revenue"], ["customers.west_customers"]),
        Q(["orders.n_orders"], ["orders.days_wait"]),
        Q(["customers.sum_spend"], ["customers.created_date"], order_by="customers.sum_spend desc"),
        Q(["accounts.n_accounts"], ["boss.title"]),
        Q(["customers.n_customers"], ["boss.title"], limit=2),
        Q(["orders.running"], ["customers.region"], where=[W("orders.placed_raw", "greater_than", "2024-01-01")]),
        dict(kind="sql", args=dict(metrics=["orders.running"], where=[W("orders.placed_raw", "greater_than", "2024-01-01")])),
        dict(kind="sql", args=dict(metrics=["orders.n_orders"])),
        dict(kind="sql", args=dict(metrics=["orders.revenue"], dimensions=["orders.placed_date"])),
        dict(kind="mql", args=dict(sql="SELECT * FROM MQL(returns.n_returns BY returns.reason WHERE ${returns.reason} = 'x')")),
        Q(["orders.revenue"], ["customers.region"], where=[W("customers.vip", "equal_to", "False"), W("orders.amount", "greater_than", "customers.age")]),
        Q(["orders.revenue"], ["channel", "area"], order_by=[dict(field="channel", sort="desc")], having=[dict(conditional="and", conditions=[W("orders.revenue", "greater_than", 1)])]),
        dict(kind="sql", args=dict(merged_queries=[
            dict(metrics=["orders.revenue"], dimensions=["channel", "orders.placed_date"]),
            dict(metrics=["sessions.n_sessions"], dimensions=["channel", "sessions.seen_date"], where=[W("sessions.length", "greater_than", 2)],
                 join_fields=[dict(field="sessions.seen_date", source_field="orders.placed_date"), dict(field="channel", source_field="channel")])],
            where=[W("orders.channel", "equal_to", "web")], order_by=[dict(field="orders.revenue", sort="asc")])),
        Q(["orders.n_orders"], [], where=[dict(funnel=dict(steps=[[W("orders.channel", "equal_to", "web")], [W("orders.channel", "equal_to", "app")]], within=dict(value=3, unit="days")), expression="converted", field="customers.customer_id")]),
        # requests that fail
        Q(["orders.revenue"], ["orders.nope"]),
        Q(["orders.revenue"], [], where=[W("orders.placed_raw", "matches", "last weekend")]),
        Q(["orders.revenue"], [], where=[W("orders.placed_raw", "between", "x")]),
        Q(["orders.revenue"], [], where=[W("orders.placed_date", "matches", "2 weeks from nowhere")]),
        Q(["orders.n_orders"], ["boss.title", "sessions.source"], where=[dict(expression="equal_to", value=1)]),
        Q(["orders.revenue"], ["customers.region"], order_by=[dict(field="customers.nope")]),
        Q(["orders.running"], ["customers.region", "sessions.area"]),
        dict(kind="mql", args=dict(sql="SELECT * FROM MQL(revenue BY )")),
        # listings and lookups
        C("list_fields"), C("list_fields", names_only=True, show_hidden=True), C("list_metrics", "orders", names_only=True), C("list_dimensions", names_only=True),
        C("list_views", names_only=True), C("list_models", names_only=True), C("list_dashboards", names_only=True),
        C("get_field", "orders.revenue"), C("get_field", "region"), C("get_metric", "extra"), C("get_dimension", "orders.placed_date"),
        C("get_dimension", "orders.placed_month"), C("get_dimension", "placed_week"), C("get_dimension", "orders.weeks_wait"),
        C("get_view", "accounts"), C("get_dashboard", "secret"), C("project.get_joinable_views", "orders"), C("project.get_joinable_views", "owners"),
        C("joinable_fields", "orders.revenue"), C("joinable_fields", "sessions.source", "customers.region"),
        C("sets"), C("labels", "orders.revenue"), C("labels", "customers.kind"), C("labels", "orders.placed_date"), C("labels", "orders.channel"),
        C("validate"), C("validate_replaced", 1), C("validate_replaced", 3), C("tag", "customer"), C("tz"), C("mapped", "channel"), C("graph"),
    ]
    return R


REQS = requests()


def ask(conn, project, req, args):
    """-> a text: the answer or the error"""
    try:
        k = req["kind"]
        if k == "sql":
            r = conn.get_sql_query(**args)
        elif k == "mql":
            r = conn.get_sql_query(**args)
        else:
            a, kw = args["args"], args["kw"]
            if k == "joinable_fields":
                r = [f.id() for f in project.joinable_fields([project.get_field(x) for x in a], True)]
            elif k == "labels":
                r = project.get_field(*a).join_graphs()
            elif k == "sets":
                r = [(s.view_name, s.name, s.field_names()) for s in project.sets()]
            elif k == "validate":
                r = [e["message"] for e in project.validate()]
            elif k == "validate_replaced":
                r = [e["message"] for e in project.validate_with_replaced_objects(replacement(*a))]
            elif k == "tag":
                r = project.get_field_by_tag(*a).id()
            elif k == "tz":
                r = project.timezone
            elif k == "mapped":
                r = project.get_mapped_field(a[0], model=project.models()[0])
            elif k == "graph":
                r = sorted((a, b, d["relationship"]) for a, b, d in project.join_graph.graph.edges(data=True))
            elif k.startswith("project."):
                r = getattr(project, k[8:])(*a, **kw)
            else:
                r = getattr(conn, k)(*a, **kw)
            r = show(r)
        return "ok " + str(r)
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__} {getattr(e, 'message', None) or e}"


def show(r):
    if isinstance(r, (list, tuple)):
        return [show(x) for x in r]
    if isinstance(r, dict):
        return {k: show(v) for k, v in r.items()}
    if hasattr(r, "_definition"):
        d = r.to_dict() if hasattr(r, "to_dict") else {}
        i = r.id() if hasattr(r, "id") and callable(r.id) else getattr(r, "name", "")
        return f"{type(r).__name__}({i} {hashlib.md5(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:8]})"
    return r


class Live:
    """a project and its connection, with the operations of a history"""

    def __init__(self, defs=None, dialect="SNOWFLAKE"):
        from metrics_layer.core.model.project import Project

        models, views, dashboards = copy.deepcopy(defs or base_defs())
        self.project = Project(models=models, views=views, dashboards=dashboards)
        self.conn = world.layer(self.project, dialect)
        self.scopes = []

    def user(self, u):
        self.conn.set_user(copy.deepcopy(USERS[u]))

    def zone(self, z):
        self.project.set_timezone(ZONES[z])

    def add(self, f, v, refresh=True):
        view, name, versions = MOVING[f]
        self.project.add_field(copy.deepcopy(versions[v - 1]), view, refresh)

    def remove(self, f, refresh=True):
        view, name, versions = MOVING[f]
        self.project.remove_field(name, view, refresh)

    def enter(self, repl):
        s = self.project.replace_objects(copy.deepcopy(repl))
        s.__enter__()
        self.scopes.append(s)

    def leave(self, err=False):
        s = self.scopes.pop()
        if err:
            e = ValueError("out of the scope")
            try:
                if s.__exit__(ValueError, e, None):
                    return "swallowed the error"
            except ValueError:
                pass
        else:
            s.__exit__(None, None, None)

    def digest(self):
        p = self.project
        return digest([p._models, p._views, p._dashboards])


def digest(x):
    return hashlib.md5(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


_EXPANDED = []


def expanded():
    """the definitions as a project holds them (aliased views written out)"""
    if not _EXPANDED:
        from metrics_layer.core.model.project import Project

        models, views, dashboards = base_defs()
        p = Project(models=models, views=views, dashboards=dashboards)
        _EXPANDED.append(copy.deepcopy((p._models, p._views, p._dashboards)))
    return copy.deepcopy(_EXPANDED[0])


def state_defs(log):
    """the definitions in the state of the specification, from the changes made to those at the start"""
    models, views, dashboards = expanded()
    for ev in log:
        if ev["op"] == "repl":
            models, views, dashboards = apply_replacement((models, views, dashboards), replacement(ev["a"]))
            continue
        view, name, versions = MOVING[ev["a"]]
        v = next(x for x in views if x["name"] == view)
        if ev["op"] == "add":
            v["fields"].append(copy.deepcopy(versions[ev["b"] - 1]))
        else:
            v["fields"] = [f for f in v["fields"] if f["name"] != name]
    return models, views, dashboards


def fresh_answer(user, zone, log, req):
    """what a project built afresh in this state answers"""
    clean_scopes()
    x = Live(state_defs(log))
    x.user(user)
    x.zone(zone)
    r = REQS[req - 1]
    return ask(x.conn, x.project, r, copy.deepcopy(r["args"]))


def clear_field_caches():
    from metrics_layer.core.model.field import Field

    for n in ("join_graphs", "referenced_fields"):
        f = getattr(Field, n)
        if hasattr(f, "cache_clear"):
            f.cache_clear()


def clean_scopes():
    """from here on every replacement scope begins and ends with empty caches of fields: the known finding repaired"""
    import contextlib

    from metrics_layer.core.model.project import Project

    plain = Project.replace_objects

    @contextlib.contextmanager
    def replace_objects(self, objects):
        try:
            with plain(self, objects):
                clear_field_caches()
                yield
        finally:
            clear_field_caches()

    Project.replace_objects = replace_objects


def run_history(ops, clean=False):
    """-> per operation: answer text or None, what went wrong with the operation, whether arguments changed, digest of the definitions"""
    if clean:
        clean_scopes()
    live = {p: Live() for p in (1, 2)}
    given = {}
    out = []
    for i, o in enumerate(ops):
        x, ans, bad, args = live[o["p"]], None, "", "same"
        k = o["op"]
        try:
            if k == "user":
                x.user(o["a"])
            elif k == "zone":
                x.zone(o["a"])
            elif k == "add":
                x.add(o["a"], o["b"], bool(o["c"]))
            elif k == "remove":
                x.remove(o["a"], bool(o["c"]))
            elif k == "refresh":
                x.project.refresh_cache()
            elif k == "enter":
                x.enter(replacement(o["a"]))
            elif k == "leave":
                bad = x.leave(bool(o["a"])) or ""
            else:
                r = REQS[o["a"] - 1]
                if k == "ask":
                    given[i + 1] = copy.deepcopy(r["args"])
                    a = given[i + 1]
                else:
                    a = given[o["b"]]
                before = json.dumps(a)
                ans = ask(x.conn, x.project, r, a)
                try:
                    after = json.dumps(a)
                except TypeError:
                    after = "other objects"
                if before != after:
                    args = "changed: " + before[:300] + " -> " + after[:600]
                    if k == "ask":      # judged here; what follows is asked with fresh ones
                        given[i + 1] = copy.deepcopy(r["args"])
        except Exception as e:  # noqa: BLE001
            bad = f"{type(e).__name__} {e}"
        out.append((ans, bad, args, x.digest()))
    return out


# ------------------------------------------------------------------ processes
def in_child(fn, args):
    """run fn(*args) in a process of its own (forked from this one, which has made no requests)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            out = pickle.dumps(fn(*args))
            with os.fdopen(w, "wb") as f:
                f.write(out)
        except BaseException as e:  # noqa: BLE001
            sys.stderr.write(f"history failed: {type(e).__name__}: {e}\n")
            import traceback
            traceback.print_exc()
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def _job(a):
    fn, args = a
    return in_child(fn, args)


def fan_out(jobs, n=8):
    """[(fn, args)] -> results in order; every job in its own process"""
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(_job, jobs))
