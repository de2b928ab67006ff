"""C11: neither other threads nor requests that failed disturb the interval of a date filter."""
import datetime as dt
import random
import sys
import threading

sys.path.insert(0, __file__.rsplit("/", 1)[0])
import c10
import check
import clock
import hist
import tlc
import world
from world import WEEK

NAMES = list(WEEK)
BROKEN = ["last weekend", "x until y", "2024-13-45 until today", "yesterday until 2024-02-30", "-a, b", ">abc", "after noon", "on 2024-1-1x",
          "before 2024-02-31", "this week until never", "last week until last weekend"]
QUIET = ("ev", "al")


class Worker:
    """A thread that runs n traced lines of the code under test whenever it is granted them."""

    def __init__(self, jobs, hub):
        self.jobs, self.hub, self.left, self.out = jobs, hub, 0, []
        self.go, self.parked, self.over = threading.Semaphore(0), threading.Event(), False
        self.thread = threading.Thread(target=self.run, daemon=True)

    def step(self):
        if self.left <= 0 and not self.hub.free:
            self.parked.set()
            self.go.acquire()
        self.left -= 1

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if "metrics_layer" not in name and "pendulum" not in name:
            return None
        self.step()
        return self.line if name.endswith("model/filter.py") else None

    def line(self, frame, event, arg):
        if event == "line":
            self.step()
        return self.line

    def run(self):
        sys.settrace(self.trace)
        try:
            for job in self.jobs:
                try:
                    self.out.append(("ok", job()))
                except Exception as e:  # noqa: BLE001
                    self.out.append(("raised", f"{type(e).__name__}: {e}"[:200]))
        finally:
            sys.settrace(None)
            self.over = True
            self.parked.set()


class Hub:
    def __init__(self, jobs, patience=0.004):
        self.free, self.patience, self.blocked, self.switches = False, patience, 0, 0
        self.ws = [Worker(j, self) for j in jobs]

    def play(self, trail, scale):
        for w in self.ws:
            w.thread.start()
        for w in self.ws:
            w.parked.wait(2)
        for t, n in trail:
            w = self.ws[t]
            if w.over or not w.parked.is_set():      # over, or waiting for another thread
                continue
            w.left, self.switches = n * scale, self.switches + 1
            w.parked.clear()
            w.go.release()
            if not w.parked.wait(self.patience):
                self.blocked += 1
        self.free = True
        for w in self.ws:
            w.go.release()
        for w in self.ws:
            w.thread.join(60)
        return [w.out for w in self.ws], any(w.thread.is_alive() for w in self.ws)


def project(ws, zone, text):
    w, p = c10.make_project(NAMES[ws - 1], zone, text, False)
    return p


def prepare(job, rng, day):
    """-> (callable, expression record, what)"""
    from metrics_layer.core.model.filter import Filter

    zone = rng.choice(c10.ZONES)
    unit = rng.random()
    while True:
        text, e = c10.expression(rng, day)
        if (unit > 0.7 or "week" in text) and "quarter" not in text:      # ends of quarters: C10
            break
    if job["fails"]:
        text = rng.choice(BROKEN)
        if rng.random() < 0.2:
            text, zone = "last week", "Mars/Phobos"
    ws = NAMES[job["ws"] - 1]
    f = {"field": "ev.at_raw", "expression": "matches", "value": text}
    what = dict(text=text, zone=zone, ws=ws, kind=job["kind"])
    if job["kind"] == "filter":
        return (lambda: Filter({"field": "f", "value": text, "week_start_day": ws, "timezone": zone}).filter_dict()), e, what
    try:
        p = project(job["ws"], zone, text)
    except Exception:  # noqa: BLE001
        p = project(job["ws"], None, text)
    conn = world.layer(p, "SNOWFLAKE")
    if job["kind"] == "board":
        return (lambda: p.get_dashboard("board").parsed_filters()), e, what
    if job["kind"] == "query":
        return (lambda: conn.get_sql_query(metrics=[], dimensions=["ev.ev_id"], where=[f])), e, what
    if job["kind"] == "measure":
        return (lambda: conn.get_sql_query(metrics=["ev.sel_ev"], dimensions=["ev.ev_id"], force_group_by=True)), e, what
    return (lambda: conn.get_sql_query(metrics=["al.n_al"], dimensions=["al.ev_id"], force_group_by=True)), e, what


PROBE = [(dt.datetime.combine(dt.date(2000, 1, 1), dt.time(0)), None)]


def sql_ends(sql):
    """Ends of the interval in the text of a statement with one date filter"""
    import re

    lo, hi = -c10.OPEN, c10.OPEN
    for op, v in re.findall(r"(>=|<=|<>|=|>|<)\s*(?:CAST\()?'(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)'", sql):
        s = world.secs(v)
        if op in (">=", "="):
            lo = max(lo, s)
        if op == ">":
            lo = max(lo, s + 1)
        if op in ("<=", "="):
            hi = min(hi, s)
        if op == "<":
            hi = min(hi, s - 1)
    return lo, hi


def ends(kind, out):
    status, x = out
    if status != "ok":
        return 1, -1
    return c10.ends_of(x) if kind in ("filter", "board") else sql_ends(x)


def play(cases, seed):
    """-> (observations, meta, numbers)"""
    import contextlib
    import io

    rng = random.Random(seed)
    obs, meta, num = [], [], dict(switches=0, waits=0, failed=0, stuck=0)
    with contextlib.redirect_stdout(io.StringIO()):
        for w in cases:
            day = c10.special_day(rng)
            now = c10.instant(rng, day, "UTC")
            names = sorted(w["jobs"]) if isinstance(w["jobs"], dict) else range(len(w["jobs"]))
            prepared = [[prepare(j, rng, day) for j in w["jobs"][t]] for t in names]
            with clock.at(now):
                if w.get("alone"):
                    outs, stuck = [], False
                    for row in prepared:
                        outs.append([])
                        for fn, _, _ in row:
                            try:
                                outs[-1].append(("ok", fn()))
                            except Exception as e:  # noqa: BLE001
                                outs[-1].append(("raised", f"{type(e).__name__}: {e}"[:200]))
                else:
                    hub = Hub([[fn for fn, _, _ in row] for row in prepared])
                    outs, stuck = hub.play([(t - 1, n) for t, n in w["trail"]], 1)
                    num["switches"] += hub.switches
                    num["waits"] += hub.blocked
            num["stuck"] += stuck
            before = []
            for t, row in enumerate(prepared):
                for k, (fn, e, what) in enumerate(row):
                    out = outs[t][k] if k < len(outs[t]) else ("raised", "never returned")
                    if w["jobs"][list(names)[t]][k]["fails"]:
                        num["failed"] += out[0] != "ok"
                        before.append(what["text"])
                        continue
                    lo, hi = ends(what["kind"], out)
                    local = now.astimezone(c10.ZoneInfo(what["zone"] or "UTC")).date()
                    obs.append({"mode": "ends", "e": e, "t": c10.num(local), "ws": WEEK[what["ws"]], "lo": lo, "hi": hi})
                    meta.append(dict(what, now=str(now), got=str(out)[:400], failed_before=before[-3:],
                                     others=[x[2] for r in prepared if r is not row for x in r], trail=w["trail"][:60],
                                     where="histories" if w.get("alone") else "threads"))
    return obs, meta, num


def body(c):
    c.assumptions += ["pieces of work are interleaved at calls and, within the date expressions, at lines",
                      "the requests of different threads use different connections and projects; the process is theirs alone"]
    base = dict(Threads="{1, 2}", Jobs=2, Days="{1, 2, 3}", Default=1, Portions="{1}", Kinds='{"a"}')
    want = {("TRUE", "TRUE"): None, ("FALSE", "TRUE"): "Own", ("TRUE", "FALSE"): "Rest"}
    for (g, t), v in want.items():
        cs = dict(base, Guard=g, Tidy=t)
        if not c.quick and v is None:
            cs.update(Threads="{1, 2, 3}", Days="{1, 2}", Jobs=2)
        r = tlc.run("WeekStart", tlc.cfg(constants=cs, invariants=["Own", "Rest", "Alone"][: 3 if g == t == "TRUE" else 2]))
        if r.violated != v:
            raise RuntimeError(f"WeekStart with Guard={g}, Tidy={t}: violated {r.violated}")
        c.tlc(f"WeekStart: Guard={g} Tidy={t}" + (f" breaks {v}, as it must" if v else ""), r)
    n = 900 if c.quick else 6000
    kinds = '{"filter", "query", "measure", "always", "board"}'
    cases = []
    for threads, jobs, share in ((2, 2, 0.4), (3, 2, 0.3), (4, 1, 0.1), (1, 6, 0.2)):
        r = tlc.generate("WeekStart", constants=dict(Threads="{" + ", ".join(str(i + 1) for i in range(threads)) + "}", Jobs=jobs,
                                                     Days="{1, 2, 3, 4, 5, 6, 7}", Default=1, Guard="FALSE", Tidy="TRUE",
                                                     Portions="{1, 2, 3, 5, 8, 13, 21, 34}", Kinds=kinds if jobs != 2 else '{"filter", "filter", "query", "measure"}'),
                         init="DrawInit", nxt="DrawNext", simulate=int(n * share), depth=5 * threads * jobs + 2, seed=c.seed * 7 + threads, invariants=["Emit"])
        c.tlc(f"WeekStart: schedules of {threads} threads", r)
        cases += [dict(x, alone=threads == 1) for x in r.cases]
    parts = [cases[i::16] for i in range(16)]
    for obs, meta, num in hist.fan_out([(play, (p, c.seed * 31 + i)) for i, p in enumerate(parts)]):
        c.count("schedules", **num)
        r = tlc.judge("DateExprTrace", obs)
        c.tlc("intervals", r)
        c.traces += len(obs)
        c.count("intervals", observations=len(obs), threads=sum(m["where"] == "threads" for m in meta))
        for m in meta[:1]:
            c.sample({k: m[k] for k in ("where", "kind", "text", "ws", "zone", "now", "got")}, cap=6)
        for i, clause in r.verdicts:
            c.violation(clause, meta[i], key=None)


if __name__ == "__main__":
    check.main("C11", body)
