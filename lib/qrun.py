"""Run single queries through the public API on a world, and have QueryTrace.tla judge the rows."""
import copy

import qgen
import tlc
import world


def run_cases(c, worlds, cases, name="QueryTrace", conns=None, skip_join_error=True, key=None, module="QueryTrace"):
    """worlds: list of (World, DB).  case: dict(wi, dialect, q, where=[cond], having=[..], user=None, order=None,
    nogroup=False, raws=[], want=None, spec=None overrides)."""
    out, meta = [], []
    cache = {}
    for case in cases:
        w, db = worlds[case["wi"]]
        dialect = case.get("dialect", "SNOWFLAKE")
        q = case["q"]
        ck = (case.get("group", case["wi"]), dialect)
        if case.get("conn") is not None:
            conn = case["conn"]
        else:
            conn = cache.get(ck) or cache.setdefault(ck, world.layer(w, dialect))
        if "user" in case:
            conn.set_user(case["user"])
        o = world.observe(conn, db, dialect, copy.deepcopy(q))
        if skip_join_error and o["status"] == "raised JoinError":
            c.count(name, no_join_path=1)
            continue
        plan = world.plan_of(o["sql"]) if o["sql"] else None
        if o["status"] == "ok" and plan is None:
            o["status"] = "unreadable plan"
        sq = qgen.spec_query(w, q, where=case.get("where", ()), having=case.get("having", ()), dialect=dialect,
                             nogroup=case.get("nogroup", False), order=case.get("order"))
        sq["raws"] = case.get("raws", [])
        sq.update(case.get("spec", {}))
        first = next(iter(w.views))
        want = case.get("want") or [qgen.alias(x) for x in q.get("dimensions", []) + q.get("metrics", [])]
        out.append({"w": case["wi"] + 1, "plan": plan or {"base": first, "joins": []}, "q": sq, "status": o["status"],
                    "rows": [[world.enc(x) for x in r] for r in o["rows"]], "cols": [str(x).lower() for x in o["cols"]],
                    "want": want})
        meta.append({"dialect": dialect, "query": q, "user": case.get("user"), "tag": case.get("tag"), "sql": o["sql"],
                     "err": o.get("err"), "rows": o["rows"][:6]})
    if not out:
        raise RuntimeError("no case could be run")
    r = tlc.judge(module, out, worlds=[w.spec_tables() for w, _ in worlds])
    c.tlc(name, r)
    c.traces += len(out)
    c.count(name, queries=len(out), with_join=sum(bool(o["plan"]["joins"]) for o in out),
            non_empty=sum(bool(o["rows"]) for o in out))
    for m in meta[:2]:
        c.sample({"query": m["query"], "dialect": m["dialect"]})
    for i, clause in r.verdicts:
        c.violation(clause, meta[i], key=key(meta[i], clause) if key else None)
    return out, meta
