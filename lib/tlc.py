"""Run TLC on a module of /verif/spec and collect what it says.

Two uses:
  generate(module, ...)  the module enumerates behaviours / cases and prints  <<"CASE", json>>  lines
  judge(module, obs)     the module reads the observations recorded from the real code (ndjson) and prints
                         <<"VERDICT", index, clause>> for every observation that the specification rejects
"""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Result:
    def __init__(self):
        self.states = self.distinct = 0
        self.out = ""
        self.verdicts = []
        self.cases = []
        self.violated = None
        self.wall = 0.0


def run(module, cfg, env=None, workers=8, simulate=None, depth=None, seed=None, timeout=800, extra=(), heap="6g"):
    """cfg: text of the configuration file"""
    tmp = tempfile.mkdtemp(prefix="vtlc_")
    t0 = time.time()
    try:
        cfgp = os.path.join(tmp, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, f"-DTLA-Library={SPEC}", "tlc2.TLC",
               "-metadir", os.path.join(tmp, "states"), "-noGenerateSpecTE", "-nowarning", "-deadlock",
               "-config", cfgp, "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError(f"TLC timed out on {module}")
        r = Result()
        r.out = p.stdout + p.stderr
        r.wall = time.time() - t0
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states", r.out)
        if m:
            r.states, r.distinct = (int(x.replace(",", "")) for x in m.groups())
        else:
            m = re.search(r"([\d,]+) states? (?:checked|generated)", r.out) or re.search(r"Progress.*?: ([\d,]+) states checked", r.out)
            if m:
                r.states = r.distinct = int(m.group(1).replace(",", ""))
        m = re.search(r"Invariant (\w+) is violated|property (\w+) (?:is|was) violated|Action property (\w+) is violated", r.out)
        if m:
            r.violated = next(g for g in m.groups() if g)
        elif "Error:" in r.out:
            raise TLCError(f"TLC error in {module}:\n" + _errors(r.out))
        elif p.returncode not in (0, 12):
            raise TLCError(f"TLC exit {p.returncode} in {module}:\n{r.out[-1500:]}")
        for line in r.out.splitlines():
            if line.startswith('<<"VERDICT"'):
                mm = re.match(r'<<"VERDICT", (\d+), "(.*)">>$', line)
                if not mm:
                    raise TLCError("bad verdict line " + line)
                r.verdicts.append((int(mm.group(1)), mm.group(2)))
            elif line.startswith('<<"CASE", "'):
                r.cases.append(json.loads(json.loads(line[len('<<"CASE", '):-2])))
        r.verdicts = sorted(set(r.verdicts))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _errors(out):
    i = out.find("Error:")
    return out[i:i + 2500]


def cfg(spec=None, init=None, nxt=None, constants=None, invariants=(), properties=(), post=None, constraint=None, view=None):
    t = []
    if spec:
        t.append(f"SPECIFICATION {spec}")
    else:
        t.append(f"INIT {init or 'Init'}\nNEXT {nxt or 'Next'}")
    if constants:
        t.append("CONSTANTS")
        for k, v in constants.items():
            t.append(f"  {k} <- {v[2:]}" if isinstance(v, str) and v.startswith("<-") else f"  {k} = {v}")
    for i in invariants:
        t.append(f"INVARIANT {i}")
    for i in properties:
        t.append(f"PROPERTY {i}")
    if constraint:
        t.append(f"CONSTRAINT {constraint}")
    if view:
        t.append(f"VIEW {view}")
    if post:
        t.append(f"POSTCONDITION {post}")
    return "\n".join(t) + "\n"


def judge(module, obs, worlds=None, env=None, workers=8, timeout=800, constants=None):
    """obs: list of json-able observations -> Result with .verdicts [(0-based index, clause)]"""
    tmp = tempfile.mkdtemp(prefix="vobs_")
    try:
        op = os.path.join(tmp, "obs.ndjson")
        with open(op, "w") as f:
            for o in obs:
                f.write(json.dumps(o) + "\n")
        e = {"OBS": op}
        if worlds is not None:
            wp = os.path.join(tmp, "worlds.ndjson")
            with open(wp, "w") as f:
                for w in worlds:
                    f.write(json.dumps(w) + "\n")
            e["WORLDS"] = wp
        e.update(env or {})
        r = run(module, cfg(constants=constants), env=e, workers=workers, timeout=timeout)
        if r.states < 2 * len(obs):
            raise TLCError(f"{module}: {r.states} states for {len(obs)} observations\n" + r.out[-1500:])
        r.verdicts = [(i - 1, c) for i, c in r.verdicts]
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def generate(module, constants=None, env=None, workers=1, simulate=None, depth=None, seed=None, invariants=(),
             properties=(), timeout=600, init=None, nxt=None, constraint=None):
    return run(module, cfg(constants=constants, invariants=invariants, properties=properties, init=init, nxt=nxt,
                           constraint=constraint),
               env=env, workers=workers, simulate=simulate, depth=depth, seed=seed, timeout=timeout)
