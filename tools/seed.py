"""usage: seed.py confirm ID...   build a scratch copy of /repo with the planted bug, run the stable tests and the demo in it
          seed.py check ID [PID]  run the check of the bug's property (or PID) against the patched scratch copy"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def scratch(i):
    d = f"/tmp/seedrepo_{i}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    subprocess.run(["git", "-C", d, "apply", f"{ROOT}/seeded/{i}/patch.diff"], check=True)
    return d


def demo(i, cwd):
    e = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1")
    t = f"/tmp/seeddemo_{i}"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(f"{ROOT}/seeded/{i}", t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = subprocess.run(["bash", f"{t}/demo.sh"], cwd=cwd, env=e, capture_output=True, text=True)
    shutil.rmtree(t, ignore_errors=True)
    return r.returncode, (r.stdout + r.stderr)[-200:]


def tests(d):
    env = dict(os.environ, PYTHONPATH=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
    cmd = (f"cd {d} && ls -S tests/test_*.py $(find tests -mindepth 2 -name 'test_*.py') | sort -u | xargs -P 8 -I@ "
           f"{PY} -m pytest -q -p no:cacheprovider -p no:xdist --timeout=300 @ 2>&1 | grep -E '^(FAILED|ERROR)' | cut -c1-160")
    out = subprocess.run(["bash", "-c", cmd], env=env, capture_output=True, text=True).stdout.splitlines()
    stable = set(json.dumps(json.load(open("/opt/vp/BASELINE.json"))).replace('"', " ").split())
    return out, stable


if sys.argv[1] == "confirm":
    for i in sys.argv[2:]:
        d = scratch(i)
        ok, o1 = demo(i, "/repo")
        bad, o2 = demo(i, d)
        fails, _ = tests(d)
        base = {"FAILED"}
        print(f"{i}: demo unpatched rc={ok} {o1 if ok else ''} patched rc={bad} tests failing: {len(fails)}")
        for f in fails[:5]:
            print("    ", f)
        shutil.rmtree(d, ignore_errors=True)
else:
    i = sys.argv[2]
    pid = sys.argv[3] if len(sys.argv) > 3 else json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]
    d = scratch(i)
    r = subprocess.run([f"{ROOT}/run.sh", pid, "quick"], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    print(i, pid, "rc", r.returncode, (r.stdout.strip().splitlines() or [r.stderr[-300:]])[-1][:160])
    shutil.rmtree(d, ignore_errors=True)
