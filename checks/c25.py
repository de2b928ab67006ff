"""C25: the same request gives the same SQL, and the same lists, in every process."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

import yaml

import check
import same_worker
import tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def written(folder, p):
    """the definitions as files"""
    models, views, dashboards = same_worker.build(p)
    os.makedirs(folder)
    with open(os.path.join(folder, "zenlytic_project.yml"), "w") as f:
        yaml.safe_dump({"name": "p", "model-paths": ["models"], "view-paths": ["views"], "dashboard-paths": ["dashboards"]}, f)
    for kind, xs in (("models", models), ("views", views), ("dashboards", dashboards)):
        for x in xs:
            at = os.path.join(folder, kind, *(["deep"] if x["name"] in ("visits", "shops") else []))
            os.makedirs(at, exist_ok=True)
            with open(os.path.join(at, x["name"] + (".yaml" if x["name"] == "items" else ".yml")), "w") as f:
                yaml.safe_dump(x, f)


def body(c):
    c.assumptions += ["refusals are compared by their words, not their order", "lists are compared in order between processes that loaded the definitions alike"]
    for fickle in (0, 1, 2):
        r = tlc.run("SameMachine", tlc.cfg(constants=dict(Keys="{1, 2}", Seeds="{0, 1, 2}", Loads="{0, 1}", Fickle=fickle), invariants=("Sound", "Complete")))
        if r.violated:
            raise tlc.TLCError("law of Same: " + r.violated)
        c.tlc("Same: machine", r)
    projects, nreq = (110, 10) if c.quick else (2500, 12)
    r = tlc.generate("SameModel", constants=dict(NReq=nreq, MaxViews=6), simulate=projects, depth=nreq + 3, seed=c.seed * 19 + 1, invariants=("Emit",))
    c.tlc("Same: drawn", r)
    cases = list({str(x): x for x in r.cases}.values())
    seeds = [0, 1, 2, 3, 4, 5, 6, 7]
    ways = ["0", "0", "0", "1", "2", "3", "files", "files"]
    if not c.quick:
        seeds += [11, 12, 13, 14, 15, 16, 17, 18]
        ways += ["0", "0", "4", "5", "6", "7", "files", "0"]
    top = tempfile.mkdtemp(prefix="c25_")
    try:
        cf = os.path.join(top, "cases.json")
        with open(cf, "w") as f:
            json.dump(cases, f)
        for k, x in enumerate(cases):
            if k % 3 == 0:
                written(os.path.join(top, "files", str(k)), x["p"])
        procs = []
        got = []
        for lo in range(0, len(seeds), 8):
            procs = [subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "lib", "same_worker.py"), cf, w, os.path.join(top, "files"), os.path.join(top, f"o{s}.json")],
                                      env={**os.environ, "PYTHONHASHSEED": str(s * 7919 + c.seed)}, cwd=top, stderr=subprocess.PIPE) for s, w in list(zip(seeds, ways))[lo:lo + 8]]
            for q, s in zip(procs, seeds[lo:lo + 8]):
                err = q.communicate()[1].decode()
                if q.returncode:
                    raise RuntimeError(err[-2000:])
                with open(os.path.join(top, f"o{s}.json")) as f:
                    got.append(json.load(f))
    finally:
        shutil.rmtree(top)
    obs, full = [], []
    kinds = {}
    for k, x in enumerate(cases):
        for n, r in enumerate(x["reqs"]):
            mine = [(s, w, g[k][n]) for s, w, g in zip(seeds, ways, got) if g[k]]
            for j in range(len(mine[0][2])):
                texts = [a[j] for _, _, a in mine]
                a0 = texts[0]
                kinds[a0[0]] = kinds.get(a0[0], 0) + 1
                obs.append(dict(answers=[dict(kind=t[0], text=same_worker.h(t[1]), bag=t[2], load=w, seed=s) for (s, w, _), t in zip(mine, texts)]))
                full.append((k, n, j, [t[1] for t in texts]))
    c.traces += len(obs)
    c.count("requests answered by every process", projects=len(cases), processes=len(seeds), **kinds)
    c.sample(dict(request=cases[0]["reqs"][0], answers=obs[0]["answers"]))
    j = tlc.judge("SameTrace", obs)
    c.tlc("Same: judged", j)
    for i, text in j.verdicts:
        k, n, q, ts = full[i]
        other = next((t for t in ts if t != ts[0]), ts[0])
        at = next((m for m in range(min(len(other), len(ts[0]))) if other[m] != ts[0][m]), 0)
        c.violation(text, dict(project=cases[k]["p"], request=cases[k]["reqs"][n], part=q, here=ts[0][max(0, at - 80):at + 120], there=other[max(0, at - 80):at + 120],
                               one=ts[0][:3000], another=other[:3000]), key=text)


check.main("C25", body)
