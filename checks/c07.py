"""C07: what is reported as joinable is what can be queried together, whatever the order of declarations."""
import random

import check
import joins
import tlc
import world


def status(f):
    try:
        return "ok", f()
    except Exception as e:  # noqa: BLE001
        return "raised " + type(e).__name__, str(e)[:200]


TFS = [["date"], ["date", "month"], ["date", "year"], ["date", "month", "year"]]
KNOWN = {"two fields of a mapping on one side": "two-mapped-fields-one-side", "mapped through a join": "mapped-through-join",
         "mapped dimension of a view without a date": "mapped-dateless"}


def merged(models, rng, obs, meta, cap):
    """metrics trended over dates, mapped dimensions: labels of each metric against what it can be queried with"""
    from metrics_layer.core.model.project import Project

    n = 0
    for m in models:
        M = joins.Model(m, rng)
        plain = list(range(1, len(m) + 1))
        tf = [rng.choice(TFS) if rng.random() < 0.7 else [] for _ in plain]
        if rng.random() < 0.6:
            tf = [["date", "month"] if t else [] for t in tf]
        maps = []
        if len(plain) > 1 and rng.random() < 0.7:
            maps.append(rng.sample(plain, rng.choice([2, 2, 2, min(3, len(plain))])))
        for y in M.yaml:
            v = M.index[y["name"]]
            if tf[v - 1]:
                y["default_date"] = "d"
                y["fields"].append(dict(name="d", field_type="dimension_group", type="time", timeframes=tf[v - 1], sql="${TABLE}.d"))
        if rng.random() < 0.5:
            M = M.shuffled(rng)
        model = dict(version=1, type="model", name="m", connection="c",
                     mappings={f"mm{k}": dict(fields=[M.field(v) for v in S]) for k, S in enumerate(maps)})
        project = Project(models=[model], views=M.yaml)
        conn = world.layer(project, "SNOWFLAKE")
        fields = [[v, "x"] for v in plain] + [[v, "n"] for v in plain] + [[v, t] for v in plain for t in tf[v - 1]]

        def fid(f):
            v = M.name[f[0]]
            return M.field(f[0]) if f[1] == "x" else f"{v}.n_{v}" if f[1] == "n" else f"{v}.d_{f[1]}"
        qs, inf = [], []
        for v in rng.sample(plain, min(len(plain), cap)):
            me = [v, "n"]
            st, lab = status(lambda: {str(f): set(project.get_field(fid(f)).join_graphs()) for f in fields})
            runs, log = [], {}
            for f in fields:
                mets = [fid(me)] + ([fid(f)] if f[1] == "n" and f != me else [])
                s, sql = status(lambda: conn.get_sql_query(metrics=mets, dimensions=[] if f[1] == "n" else [fid(f)]))
                if s == "ok":
                    runs.append(f)
                log[fid(f)] = s + ": " + sql
            qs.append({"mode": "merge", "v": v, "tf": tf, "maps": maps, "fields": fields, "status": st, "runs": runs,
                       "labels": [f for f in fields if lab[str(f)] & lab[str(me)]] if st == "ok" else []})
            inf.append({"metric": fid(me), "labels": {fid(f): sorted(lab[str(f)]) for f in fields} if st == "ok" else lab,
                        "runs": log, "maps": model["mappings"]})
        obs.append({"m": m, "qs": qs})
        meta.append((M, inf))
        n += len(qs)
    return n


def body(c):
    rng = random.Random(700 + c.seed)
    plan = [(2, 2, 1, 40), (3, 2, 1, 70), (3, 3, 0, 60), (4, 3, 1, 100), (4, 2, 0, 40), (5, 3, 1, 40), (4, 14, 0, 40), (5, 15, 0, 80),
            (6, 16, 0, 50)]
    if c.quick:
        plan = [(a, b, d, n * 2) for a, b, d, n in plan]
    if not c.quick:
        plan = [(a, b, d, n * 12) for a, b, d, n in plan] + [(6, 4, 1, 300)]
    models = []
    for k, (nv, nn, nj, runs) in enumerate(plan):
        models += joins.generate(c, 71 * c.seed + k, runs, nv, nn, nj)
    obs, meta, n = [], [], 0
    for m in models:
        M0 = joins.Model(m, rng)
        qs, inf = [], []
        for turn in range(2):
            M = M0 if turn == 0 else M0.shuffled(rng)
            project = M.project()
            conn = world.layer(project, "SNOWFLAKE")

            def add(q, about):
                qs.append(q)
                inf.append(about)
            nodes = list(M.nodes)
            rng.shuffle(nodes)
            for v in nodes:
                st, got = status(lambda: project.get_joinable_views(M.name[v]))
                add({"mode": "reach", "v": v, "status": st, "got": [M.index.get(x, 0) for x in got] if st == "ok" else []},
                    {"joinable views of": M.name[v], "answer": got})
            st, lab = status(lambda: {v: set(project.get_field(M.field(v)).join_graphs()) for v in M.nodes})
            pairs = [[a, b] for a in M.nodes for b in M.nodes if a < b and lab[a] & lab[b]] if st == "ok" else []
            add({"mode": "labels", "status": st, "got": pairs}, {"labels": {M.name[v]: sorted(x) for v, x in lab.items()} if st == "ok" else lab})
            ms = [v for v in M.nodes if v < 100]
            st, lab2 = status(lambda: {v: set(project.get_field(f"{M.name[v]}.n_{M.name[v]}").join_graphs()) for v in ms})
            if st != "ok" or any(lab2[v] != lab[v] for v in ms):
                add({"mode": "labels", "status": "metric labels differ " + st, "got": []}, {"labels": str(lab2)})
            for _ in range(2):
                vs = rng.sample(M.nodes, min(len(M.nodes), rng.choice([1, 1, 2])))
                st, got = status(lambda: project.joinable_fields([project.get_field(M.field(v)) for v in vs]))
                names = sorted({M.index.get(f.view.name, 0) for f in got}) if st == "ok" else []
                add({"mode": "fields", "vs": vs, "status": st, "got": names}, {"fields joinable with": [M.field(v) for v in vs],
                                                                              "answer": [f.id() for f in got] if st == "ok" else got})
            if turn == 0:
                for need in M.subsets(rng, 5 if c.quick else 20, 2):
                    need = need[:2]
                    q = {"metrics": [], "dimensions": [M.field(v) for v in need], "single_query": True}
                    st, sql = status(lambda: conn.get_sql_query(**q))
                    base, js = M.plan(sql) if st == "ok" else (0, [])
                    add({"mode": "plan", "need": need, "status": st, "base": base, "joins": js}, {"query": q, "sql": sql})
        obs.append({"m": m, "qs": qs})
        meta.append((M0, inf))
        n += len(qs)
    few = []
    for k, (nv, nn, runs) in enumerate([(2, 2, 25), (3, 2, 35), (3, 13, 30), (4, 14, 40)]):
        few += [m for m in joins.generate(c, 171 * c.seed + k, runs * (1 if c.quick else 12), nv, nn, 0)
                if not any(i["as"] for v in m for i in v)]
    nm = merged(few, rng, obs, meta, 3 if c.quick else 4)
    n += nm
    r = tlc.judge("JoinGraphTrace", obs)
    c.tlc("JoinGraphTrace", r)
    c.traces += n
    c.count("JoinGraphTrace", models=len(models) + len(few), answers=n, metrics_with_labels=nm)
    c.sample({"views": meta[0][0].yaml, "answers": meta[0][1][:3]})
    for i, clause in r.verdicts:
        clause, k = clause.rsplit("@", 1)
        M, inf = meta[i]
        c.violation(clause, {"about": inf[int(k) - 1], "answer": obs[i]["qs"][int(k) - 1], "names": M.name,
                             "ids": {y["name"]: y.get("identifiers") for y in M.yaml}}, key=KNOWN.get(clause))


check.main("C07", body)
