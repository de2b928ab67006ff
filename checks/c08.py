"""C08: aggregates do not change when other views are joined in (fan-out safety)."""
import random

import check
import qgen
from qgen import PLAIN, SYM
from qrun import run_cases


def body(c):
    n = 5000 if c.quick else 30000
    rng = random.Random(c.seed)
    worlds = []
    for _ in range(max(8, n // 60)):
        w = qgen.fill(qgen.std_world(fanouts=True), rng)
        if rng.random() < 0.4:
            qgen.same_keys(w)
        worlds.append((w, w.db()))
    cases = []
    for i in range(n):
        wi = i % len(worlds)
        w = worlds[wi][0]
        dialect = SYM[i % len(SYM)] if rng.random() < 0.88 else rng.choice(PLAIN)
        vs = qgen.subtree(rng, rng.choice([1, 2, 2, 3, 3, 4]))
        mets = []
        for v in vs:
            ms = [f"{v}.{m}" for m in w.views[v].mets if (m != "qty_minus_price" or "products" in vs)
                  and ("order_total" not in m or dialect in SYM)]
            mets += rng.sample(ms, min(len(ms), rng.choice([0, 1, 2])))
        dims = []
        for v in vs:
            ds = [f"{v}.{d}" for d in w.views[v].dims if d not in ("id", w.views[v].key)]
            dims += rng.sample(ds, rng.choice([0, 0, 1]))
        if not mets and not dims:
            continue
        rng.shuffle(mets)
        q = {"metrics": mets, "dimensions": dims}
        case = {"wi": wi, "dialect": dialect, "q": q, "order": qgen.default_order(q, dialect)}
        if rng.random() < 0.4:
            refs = [f"{v}.{d}" for v in vs for d in w.views[v].dims]
            q["where"], case["where"] = qgen.random_where(rng, w, refs)
        if mets and rng.random() < 0.15:
            q["having"], case["having"] = qgen.random_having(rng, w, mets)
        qgen.maybe_text(rng, q, "where", 0.15)
        qgen.maybe_text(rng, q, "having", 0.3)
        cases.append(case)
    run_cases(c, worlds, cases)
    c.assumptions += ["primary keys declared in the model are unique in the data",
                      "generated SQL is executed by SQLite through lib/sqlx.py"]


check.main("C08", body)
