"""C06: every query joins exactly along declared identifiers, in one tree."""
import random

import check
import joins
import tlc
import world


def body(c):
    rng = random.Random(600 + c.seed)
    models = []
    plan = [(2, 2, 1, 60), (3, 2, 1, 110), (3, 3, 0, 80), (4, 3, 1, 150), (4, 2, 0, 60), (5, 3, 1, 60), (4, 14, 0, 60), (5, 15, 0, 150), (6, 16, 0, 100)]
    if c.quick:
        plan = [(a, b, d, n * 3) for a, b, d, n in plan]
    if not c.quick:
        plan = [(a, b, d, n * 12) for a, b, d, n in plan] + [(6, 4, 1, 400)]
    for k, (nv, nn, nj, runs) in enumerate(plan):
        models += joins.generate(c, 17 * c.seed + k, runs, nv, nn, nj)
    if not c.quick:
        joins.explore(c, 3, 1, 6)
    obs, meta = [], []
    n = 0
    for m in models:
        M = joins.Model(m, rng)
        conn = world.layer(M.project(), rng.choice(["SNOWFLAKE", "POSTGRES", "BIGQUERY", "TRINO"]))
        qs, inf = [], []
        for need in M.subsets(rng, 12 if c.quick else 40, 1):
            names = [M.field(v) for v in need]
            rng.shuffle(names)
            q = {"metrics": [], "dimensions": names}
            shape = rng.random()
            if shape < 0.3:      # views reached through a metric, a filter or an ordering
                v = need[0]
                if v < 100:
                    q = {"metrics": [f"{M.name[v]}.n_{M.name[v]}"], "dimensions": [x for x in names if x != M.field(v)]}
            elif shape < 0.5 and len(names) > 1:
                q = {"metrics": [], "dimensions": names[1:], "where": [{"field": names[0], "expression": "equal_to", "value": "a"}]}
            # without single_query the layer goes on to try a merged result, and says why that is impossible
            q["single_query"] = rng.random() < 0.75
            try:
                sql = conn.get_sql_query(**q)
                st = "ok"
            except Exception as e:  # noqa: BLE001
                sql, st = str(e)[:200], "raised " + type(e).__name__
                if st == "raised QueryError" and not q["single_query"]:
                    st = "raised JoinError"
            base, js = M.plan(sql) if st == "ok" else (0, [])
            qs.append({"mode": "plan", "need": need, "status": st, "base": base, "joins": js})
            inf.append({"query": q, "sql": sql})
        obs.append({"m": m, "qs": qs})
        meta.append((M, inf))
        n += len(qs)
    r = tlc.judge("JoinGraphTrace", obs)
    c.tlc("JoinGraphTrace", r)
    c.traces += n
    c.count("JoinGraphTrace", models=len(models), queries=n, joined=sum(len(q["joins"]) > 0 for o in obs for q in o["qs"]),
            join_errors=sum(q["status"] == "raised JoinError" for o in obs for q in o["qs"]))
    c.sample({"views": meta[0][0].yaml, "query": meta[0][1][0]["query"]})
    for i, clause in r.verdicts:
        clause, k = clause.rsplit("@", 1)
        M, inf = meta[i]
        q = obs[i]["qs"][int(k) - 1]
        c.violation(clause, {"query": inf[int(k) - 1]["query"], "sql": inf[int(k) - 1]["sql"], "need": q["need"], "joins": q["joins"],
                             "names": M.name, "model": obs[i]["m"],
                             "ids": {y["name"]: y.get("identifiers") for y in M.yaml}}, key=None)


check.main("C06", body)
