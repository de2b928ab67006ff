"""Histories drawn from History.tla, run against the code, judged by HistoryTrace.tla (C03, C04, C05)."""
import datetime as dt

import clock
import hist
import tlc

NOW = dt.datetime(2024, 3, 6, 15, tzinfo=dt.timezone.utc)
ALL = list(range(1, len(hist.REQS) + 1))


def of_kind(*kinds):
    return [i for i in ALL if hist.REQS[i - 1]["kind"] in kinds]


def S(xs):
    return "{" + ", ".join(str(x) if not isinstance(x, str) else f'"{x}"' for x in sorted(xs, key=str)) + "}"


def model(c, length, projects=(1, 2)):
    r = tlc.generate("HistoryModel", constants=dict(
        Users=S([0, 1]), Zones=S([0]), Moving=S([1, 3]), Versions=S([2]), Repls=S([1, 4]), Reqs=S([1]), Projects=S(projects),
        Depth=2, Length=length, Kinds=S(["set", "field", "scope"])), workers=8, nxt="AllNext",
        invariants=("ScopesLeaveNothing", "Independent", "QuestionsAreNoTransitions"))
    if r.violated:
        raise tlc.TLCError("the model of histories breaks its own law " + r.violated)
    c.tlc("History: laws", r)


def histories(c, n, length, kinds, reqs, projects=(1, 2), depth=2, seed=0):
    r = tlc.generate("History", constants=dict(
        Users=S(hist.USERS), Zones=S(hist.ZONES), Moving=S(hist.MOVING), Versions=S([1, 2]), Repls=S(range(1, hist.NREPL + 1)),
        Reqs=S(reqs), Projects=S(projects), Depth=depth, Length=length, Kinds=S(kinds)), simulate=n, depth=length * 40,
        seed=c.seed * 7919 + seed, nxt="NextOrIdle", invariants=("Emit",), workers=1)
    c.tlc("History: drawn", r)
    seen, out = set(), []
    for case in r.cases:
        k = str(case)
        if k not in seen:
            seen.add(k)
            out.append(case)
    return out


def scoped(op):
    return op["op"] == "enter" or op["op"] in ("ask", "again") and hist.REQS[op["a"] - 1]["kind"] == "validate_replaced"


def run(c, cases, name, only=None):
    """only: the clauses this property is about (others are judged by the checks of the other properties)"""
    with clock.at(NOW):
        jobs, index = [], {}
        for case in cases:
            for o, k in zip(case["ops"], case["keys"]):
                if o["op"] in ("ask", "again"):
                    kk = (k["user"], k["zone"], str(k["log"]), o["a"])
                    if kk not in index:
                        index[kk] = len(jobs)
                        jobs.append((hist.fresh_answer, (k["user"], k["zone"], k["log"], o["a"])))
        hist.expanded()
        nf = len(jobs)
        jobs += [(hist.run_history, (case["ops"],)) for case in cases]
        res = hist.fan_out(jobs)
        fresh, runs = res[:nf], res[nf:]
        wrong = judge(c, cases, runs, index, fresh)
        # what is wrong only because of the caches of fields that outlive a replacement (a known finding) is right in
        # the same history with these emptied at the borders of the scopes
        again = sorted({i for i, k, v in wrong if any(scoped(o) for o in cases[i]["ops"][:k])})
        clean = hist.fan_out([(hist.run_history, (cases[i]["ops"], True)) for i in again])
        strict = judge(c, [cases[i] for i in again], clean, index, fresh, every=True) if again else []
    strict = {(again[i], k): v for i, k, v in strict}
    c.traces += len(cases)
    texts = set(fresh)
    nq = sum(1 for case in cases for o in case["ops"] if o["op"] in ("ask", "again"))
    c.count(name, histories=len(cases), operations=sum(len(x["ops"]) for x in cases), questions=nq, fresh_answers=nf,
            different_answers=len(texts), failing_answers=sum(1 for t in texts if not t.startswith("ok")))
    found = [(i, k, v, runs[i], False) for i, k, v in wrong if i not in again]
    for i in again:
        for k, v in sorted((k, v) for (x, k), v in strict.items() if x == i):
            found.append((i, k, v, clean[again.index(i)], False))
        found += [(i, k, v, runs[i], True) for x, k, v in wrong if x == i and (i, k) not in strict]
    seen = set()
    for i, k, clause, out, known in found:
        if only and not clause.startswith(tuple(only)) or (i, clause, known) in seen:
            continue
        seen.add((i, clause, known))
        case = cases[i]
        op = case["ops"][k - 1]
        a, bad, args, dig = out[k - 1]
        d = dict(step=k, op=op, request=hist.REQS[op["a"] - 1] if op["op"] in ("ask", "again") else None,
                 history=" ".join(brief(x) for x in case["ops"][:k]))
        if "answer" in clause:
            kk = case["keys"][k - 1]
            d["got"], d["fresh"] = a, fresh[index[(kk["user"], kk["zone"], str(kk["log"]), op["a"])]]
        if "argument" in clause:
            d["args"] = args
        c.violation(clause, d, key="stale-field-caches" if known and "answer" in clause
                    else f"{clause.split(':')[0]}|{op['a'] if d['request'] else op['op']}")
    if cases:
        c.sample(dict(kind=name, history=" ".join(brief(x) for x in cases[0]["ops"])))


_DIG = {}


def judge(c, cases, runs, index, fresh, every=False):
    """-> [(history, step, clause)]"""
    texts = {}

    def num(t):
        return texts.setdefault(t, len(texts) + 1)

    obs = []
    for case, out in zip(cases, runs):
        o = dict(ops=case["ops"], ans=[], out=[], args=[], digest=[], fresh=[], defs=[], every=every)
        have, logs = set(), set()
        for op, k, (a, bad, args, dig) in zip(case["ops"], case["keys"], out):
            o["ans"].append(num(a) if a is not None else 0)
            o["out"].append(bad)
            o["args"].append("same" if args == "same" else "changed")
            o["digest"].append(dig)
            if a is not None:
                kk = (k["user"], k["zone"], str(k["log"]), op["a"])
                if kk not in have:
                    have.add(kk)
                    o["fresh"].append(dict(user=k["user"], zone=k["zone"], log=k["log"], req=op["a"], ans=num(fresh[index[kk]])))
        for log in case["logs"]:
            if str(log) not in logs:
                logs.add(str(log))
                if str(log) not in _DIG:
                    _DIG[str(log)] = hist.digest(list(hist.state_defs(log)))
                o["defs"].append(dict(log=log, digest=_DIG[str(log)]))
        obs.append(o)
    r = tlc.judge("HistoryTrace", obs)
    c.tlc("HistoryTrace", r)
    return [(i, int(v.split(" ", 1)[0]), v.split(" ", 1)[1]) for i, v in r.verdicts]


def brief(o):
    return f"{o['op']}{o['p']}({o['a']}" + (f",{o['b']}" if o["b"] else "") + ("" if o["op"] not in ("add", "remove") or o["c"] else ",unrefreshed") + ")"


def every_request(c):
    """every request asked twice with the same objects, of each kind of user; a history for some requests at a time"""
    out = []
    users = [0, 1] if c.quick else sorted(hist.USERS)
    for u in users:
        reqs = h_shuffled(c, u)
        for j in range(0, len(reqs), 8):
            ops = [dict(op="user", p=1, a=u, b=0, c=0)]
            for r in reqs[j:j + 8]:
                ops.append(dict(op="ask", p=1, a=r, b=0, c=0))
                ops.append(dict(op="again", p=1, a=r, b=len(ops), c=0))
            keys = [dict(user=0, zone=0, log=[])] + [dict(user=u, zone=0, log=[])] * (len(ops) - 1)
            out.append(dict(ops=ops, keys=keys, logs=[[]]))
    return out


def h_shuffled(c, u):
    import random

    x = list(ALL)
    random.Random(c.seed * 31 + u).shuffle(x)
    return x
