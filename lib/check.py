"""Bookkeeping shared by all checks: budget, counters, known findings, evidence file, verdict line, exit code."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.quick = self.tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.viol = []
        self.known_hit = {}
        self.known = []
        kf = os.path.join(ROOT, "known_findings.jsonl")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == pid and d.get("status") == "known":
                        self.known.append(d)

    # -- counters
    def tlc(self, name, r):
        self.states += r.distinct
        self.transitions += max(r.states - 0, 0)
        p = self.parts.setdefault(name, {"states": 0, "states_generated": 0, "tlc_wall_s": 0})
        p["states"] += r.distinct
        p["states_generated"] += r.states
        p["tlc_wall_s"] = round(p["tlc_wall_s"] + r.wall, 1)

    def count(self, name, **kw):
        p = self.parts.setdefault(name, {})
        for k, v in kw.items():
            p[k] = p.get(k, 0) + v

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def elapsed(self):
        return time.time() - self.t0

    # -- verdicts
    def violation(self, clause, case, key=None):
        """key identifies the specific input for the known-findings file"""
        for k in self.known:
            if key is not None and key in k.get("keys", [k.get("key")]):
                self.known_hit.setdefault(k["key"] if "key" in k else k["keys"][0], k)
                return
        self.viol.append({"clause": clause, "case": case, "key": key})

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:6] or ["none"],
            "parts": self.parts,
        }
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol),
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}"
                  + ("" if (k.get('key') or k['keys'][0]) in self.known_hit else " (not reached in this run)"))
        if self.viol:
            rp = os.path.join(EVID, f"{self.pid}.replay.json")
            with open(rp, "w") as f:
                per, keep = {}, []
                for v in self.viol:
                    k = (v["clause"], v["key"])
                    per[k] = per.get(k, 0) + 1
                    if per[k] <= 12:
                        keep.append(v)
                json.dump(keep[:200], f, indent=1, default=str)
            for v in self.viol[:8]:
                print(f"  {v['clause']}: {json.dumps(v['case'], default=str)[:600]}  key={v['key']}")
            print(f"{len(self.viol)} rejected")
            print(f"VIOLATION property={self.pid} replay={rp}")
            sys.stdout.flush()
            os._exit(1)
        if os.path.exists(os.path.join(EVID, f"{self.pid}.replay.json")):
            os.remove(os.path.join(EVID, f"{self.pid}.replay.json"))
        print(f"ok property={self.pid} tier={self.tier} traces={self.traces} states={self.states} wall={ev['wall_s']}s")
        sys.stdout.flush()
        os._exit(0)


def main(pid, body, level="model_checking"):
    c = Check(pid, level)
    try:
        body(c)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"ERROR of the check {pid}")
        sys.stdout.flush()
        os._exit(2)
    c.finish()
