"""Runner shared by all checks: exhaustive enumeration of jobs, sharded over processes, with measured counts."""
import hashlib
import json
import math
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)  # where evidence and replays go
REAL_STDOUT = sys.stdout
FAIL_FAST = bool(os.environ.get("VERIF_FAIL_FAST"))  # for tools/mutate.py: stop at the first violation
NO_ANSWER_AFTER = float(os.environ.get("VERIF_JOB_TIMEOUT", "800"))


class StopJob(Exception):
    """raised after a violation was recorded, to end the job"""


def jsonable(x, depth=0):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, bytes):
        return "0x" + x.hex()
    if isinstance(x, float) and not math.isfinite(x):
        return str(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def digest(key):
    return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()


class Recorder:
    """what one job covered"""

    def __init__(self):
        self.state_keys = set()
        self.state_count = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.where = None

    def state(self, key):
        self.state_keys.add(digest(key))

    def states_n(self, n):
        """n states known to be distinct from all others by construction"""
        self.state_count += n

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def at(self, where):
        """remember the case being run, for an exception raised by the implementation"""
        self.where = where

    def fail(self, what, case=None, key=None):
        self.violations.append({"what": what, "case": jsonable(case if case is not None else self.where),
                                "key": key})
        raise StopJob()

    def check(self, cond, what, case=None, key=None):
        if not cond:
            self.fail(what, case, key)


_JOBS = None
_FN = None


def _run_job(idx):
    rec = Recorder()
    t0 = time.time()
    try:
        _FN(_JOBS[idx], rec)
    except StopJob:
        pass
    except (Exception, SystemExit) as e:  # the implementation raised (or answered something the harness cannot use)
        tb = traceback.format_exc(limit=-6)
        rec.violations.append({"what": f"unexpected {type(e).__name__}: {e}", "case": jsonable(rec.where),
                               "key": None, "traceback": tb})
    return (idx, rec.state_keys, rec.state_count, rec.transitions, rec.traces, rec.samples, rec.violations,
            time.time() - t0)


def _worker(conn):
    parent = os.getppid()
    while True:
        while not conn.poll(5):
            if os.getppid() != parent:
                os._exit(1)
        idx = conn.recv()
        if idx is None:
            break
        conn.send(_run_job(idx))
    conn.close()
    os._exit(0)


class Ctx:
    def __init__(self, pid, tier, seed, level, only_job=None):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == "quick"
        self.only_job = only_job
        self.total = Recorder()
        self.assumptions = []
        self.bounds = {}
        self.parts = {}
        self.t0 = time.time()

    def explore(self, name, fn, jobs):
        """run fn(job, rec) for every job; every job is a finite set of executions, all of them run"""
        global _JOBS, _FN
        if FAIL_FAST and self.total.violations:
            return
        jobs = list(jobs)
        if self.only_job is not None:
            if self.only_job[0] != name:
                return
            jobs = [jobs[self.only_job[1]]]
        _JOBS, _FN = jobs, fn
        t0 = time.time()
        n_proc = int(os.environ.get("VERIF_PROCS", min(8, os.cpu_count() or 1)))
        results = []
        if n_proc == 1:
            results = [_run_job(i) for i in range(len(jobs))]
        else:
            results = self.farm(name, jobs, min(n_proc, len(jobs)))
        results.sort(key=lambda r: r[0])
        keys, count, trans, traces = set(), 0, 0, 0
        for idx, k, c, tr, tc, samples, viol, _ in results:
            keys |= k
            count += c
            trans += tr
            traces += tc
            if len(self.total.samples) < 6:
                self.total.samples.extend(samples[:1])
            for v in viol:
                self.total.violations.append(dict(v, part=name, job=idx))
        self.total.state_count += len(keys) + count
        self.total.transitions += trans
        self.total.traces += traces
        self.parts[name] = {"jobs": len(jobs), "states": len(keys) + count, "transitions": trans, "traces": traces,
                            "wall_s": round(time.time() - t0, 2)}

    def farm(self, name, jobs, n_proc):
        """hand the jobs one by one to worker processes; a worker that dies or never answers is reported with its job"""
        mpc = mp.get_context("fork")
        todo, results, busy, procs = iter(range(len(jobs))), [], {}, []

        def lost(idx, what):
            self.total.violations.append({"part": name, "job": idx, "what": what, "case": jsonable(jobs[idx]), "key": None})

        def hand(conn):
            idx = next(todo, None)
            conn.send(idx)
            if idx is None:
                busy.pop(conn, None)
                conn.close()
            else:
                busy[conn] = idx
        try:
            for _ in range(n_proc):
                mine, theirs = mpc.Pipe()
                p = mpc.Process(target=_worker, args=(theirs,), daemon=True)
                p.start()
                theirs.close()
                procs.append(p)
                hand(mine)
            stop = False
            while busy and not stop:
                ready = mp.connection.wait(list(busy), timeout=max(NO_ANSWER_AFTER - (time.time() - self.t0), 1))
                if not ready:
                    for idx in sorted(busy.values())[:1]:
                        lost(idx, f"the implementation did not answer within {NO_ANSWER_AFTER} s in {len(busy)} jobs")
                    break
                for conn in ready:
                    try:
                        results.append(conn.recv())
                    except EOFError:
                        lost(busy.pop(conn), "the process running the implementation ended")
                        stop = True
                        continue
                    if FAIL_FAST and results[-1][6]:
                        stop = True
                    else:
                        hand(conn)
        finally:
            for p in procs:
                if busy:
                    p.kill()
                p.join()
        return results

    def finish(self):
        known, violations = [], []
        table = known_findings(self.pid)
        for v in self.total.violations:
            (known if v["key"] is not None and v["key"] in table else violations).append(v)
        cov = {"states": self.total.state_count, "transitions": self.total.transitions,
               "traces_validated_against_impl": self.total.traces,
               "samples": self.total.samples or ["no sample recorded"], "exhaustive": not violations,
               "bounds": self.bounds, "parts": self.parts}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3),
              "violations": len(violations)}
        if self.only_job is None:
            os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
            with open(os.path.join(OUT, "evidence", self.pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
                f.write("\n")
        out = REAL_STDOUT
        for key in sorted({v["key"] for v in known}):
            print(f"KNOWN-FINDING: property={self.pid} {table[key]}", file=out)
        print(f"{self.pid} [{self.tier}] states={cov['states']} transitions={cov['transitions']} "
              f"traces={cov['traces_validated_against_impl']} wall={ev['wall_s']}s violations={len(violations)}",
              file=out)
        if not violations:
            return 0
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", f"{self.pid}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                       "rerun": f"VERIF_TIER={self.tier} /opt/venv/bin/python check.py {self.pid} "
                                f"--job {violations[0]['part']}:{violations[0]['job']}",
                       "violations": violations[:10]}, f, indent=1)
            f.write("\n")
        for v in violations[:3]:
            print(f"  {v['part']}[{v['job']}]: {v['what']}", file=out)
            print(f"    case: {json.dumps(v['case'])[:600]}", file=out)
            if v.get("traceback"):
                print("    " + v["traceback"].strip().replace("\n", "\n    "), file=out)
        print(f"VIOLATION property={self.pid} replay={path}", file=out)
        return 1


def known_findings(pid):
    """lines 'known: property=<id> key=<key> <what fails>' of known_findings.txt ('fixed:' lines suppress nothing)"""
    table = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                prop, key, what = line[len("known: "):].strip().split(" ", 2)
                if prop == "property=" + pid:
                    table[key[len("key="):]] = what
    return table


def same(a, b, tol=1e-9):
    """arrays equal up to rounding, NaN equal to NaN, same shape"""
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) |
                           (np.abs(a - b) <= tol * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b))))))


def exact(a, b):
    """lists of numbers equal to the last digit, NaN equal to NaN"""
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


def debruijn(n, d):
    """one history over n operations that contains every sequence of d of them"""
    a, out = [0] * n * d, []

    def db(t, p):
        if t > d:
            if d % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, n):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:d - 1]


def optional(documented, given):
    """keyword arguments without those that equal the documented default: leaving them out must mean the same"""
    return {k: v for k, v in given.items() if not (k in documented and type(v) is type(documented[k]) and v == documented[k])}
