"""Turn bug descriptions into /verif/seeded/<id>/ after confirming them in a scratch copy, and run checks against them.

  mkseed.py add SPEC.py    SPEC.py defines SEEDS: dicts with id, property, edits [(file, old, new)], needs, breaks, demo (python text)
  mkseed.py run [ID ...]   run each bug's own check (or CHECKS="C01 C02") in a scratch copy and print what is caught
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
BOOK = os.path.join(VERIF, "tools", "seed_results.json")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
STABLE = None
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
PRE = "import os, sys\nsys.path.insert(0, os.getcwd())\n"


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


def scratch(sid):
    d = f"/tmp/seedwork/{sid}"
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def tests_pass(d):
    r = sh(f"{PY} -m pytest -q -p no:cacheprovider --no-cov --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={d}.xml", d)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    sh(f"/usr/bin/python3 /opt/vp/results.py {d}.json junit:{d}.xml", d)
    passed = set(json.load(open(f"{d}.json"))["passed"])
    for f in (d + ".xml", d + ".json"):
        os.path.exists(f) and os.remove(f)
    return stable - passed


def add(s):
    sid = s["id"]
    d = scratch(sid)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            text = open(p).read()
            if text.count(old) != 1:
                return f"{sid}: {text.count(old)} matches of edit in {f}"
            open(p, "w").write(text.replace(old, new))
        diff = sh("git diff", d).stdout
        missing = tests_pass(d)
        if missing:
            return f"{sid}: tests fail: {sorted(missing)[:3]}"
        out = os.path.join(SEEDED, sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(PRE + s["demo"].strip("\n") + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        good, bad = sh(f"bash {out}/demo.sh", "/repo"), sh(f"bash {out}/demo.sh", d)
        if good.returncode or not bad.returncode:
            shutil.rmtree(out)
            return f"{sid}: demo gives {good.returncode} without and {bad.returncode} with the change\n{good.stderr[-600:]}"
        return f"{sid}: kept"
    finally:
        shutil.rmtree(d)


def run(sid):
    d = scratch(sid)
    try:
        r = sh(f"git apply {SEEDED}/{sid}/patch.diff", d)
        if r.returncode:
            return sid, {"patch": "does not apply"}
        checks = os.environ.get("CHECKS", "").split() or [json.load(open(f"{SEEDED}/{sid}/meta.json"))["property"]]
        res = {}
        for c in checks:
            env = dict(ENV, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_OUT=d + ".out")
            r = subprocess.run([PY, "check.py", c], cwd=VERIF, env=env, capture_output=True, text=True)
            hit = r.returncode == 1 and f"VIOLATION property={c} " in r.stdout
            what = re.search(r"\]: (.*)", r.stdout)
            res[c] = ("caught: " + what.group(1)[:150]) if hit else f"exit {r.returncode} " + ("MISSED" if r.returncode == 0 else r.stderr[-300:])
        return sid, res
    finally:
        shutil.rmtree(d)
        shutil.rmtree(d + ".out", ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "add":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        with ThreadPoolExecutor(4) as ex:
            for line in ex.map(add, ns["SEEDS"]):
                print(line, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(2) as ex:
            for sid, res in ex.map(run, ids):
                for c, w in res.items():
                    print(sid, c, w, flush=True)
                    if not os.environ.get("CHECKS"):
                        book = json.load(open(BOOK)) if os.path.exists(BOOK) else {}
                        e = book.setdefault(sid, {})
                        e["now"] = "caught" if w.startswith("caught") else "missed"
                        e.setdefault("first", e["now"])
                        json.dump(book, open(BOOK, "w"), indent=1, sort_keys=True)
