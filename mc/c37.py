"""Logging: every message of sufficient level appears exactly once on the console and in its logger's file."""
import contextlib
import io
import itertools
import logging
import os
import re
import shutil
import tempfile
from utils import setup_logger

LINE = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} - (.*?) - (DEBUG|INFO|WARNING|ERROR|CRITICAL) - (.*)$")
LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
NAMES = ("first", "second")
SETUPS = [(0, 0, None), (0, 1, "ERROR"), (1, 1, "DEBUG"), (1, 0, "WARNING")]  # name, file, level (none: not given)
MESSAGES = [(0, "INFO"), (0, "DEBUG"), (0, "ERROR"), (1, "WARNING"), (1, "DEBUG")]


def forget(name):
    lg = logging.getLogger(name)
    for h in list(lg.handlers):
        lg.removeHandler(h)
        h.close()
    lg.setLevel(logging.NOTSET)


def parse(text, rec, where):
    out = []
    for line in text.splitlines():
        m = LINE.match(line)
        rec.check(m is not None, f"{where}: a line {line!r}")
        out.append(m.groups() if m else line)
    return out


def history(hist, rec):
    """what is written where, after every operation of one history"""
    d = tempfile.mkdtemp(prefix="c37_")
    files = [os.path.join(d, "a.log"), os.path.join(d, "b.log")]
    console, ref, where, level = [], [[], []], {}, {}
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            for t, op in enumerate(hist):
                if op < len(SETUPS):
                    n, f, lv = SETUPS[op]
                    lg = setup_logger(NAMES[n], files[f]) if lv is None else setup_logger(name=NAMES[n], log_file=files[f], level=LEVELS[lv])
                    rec.check(lg is logging.getLogger(NAMES[n]), "the logger returned is not the one of that name")
                    where[n], level[n] = f, LEVELS[lv or "INFO"]
                else:
                    n, lv = MESSAGES[op - len(SETUPS)]
                    if n not in where:
                        continue
                    text = f"message {t}"
                    logging.getLogger(NAMES[n]).log(LEVELS[lv], text)
                    if LEVELS[lv] >= level[n]:
                        console.append((NAMES[n], lv, text))
                        ref[where[n]].append((NAMES[n], lv, text))
                rec.step()
        for n in NAMES:
            for h in logging.getLogger(n).handlers:
                h.flush()
        rec.check(parse(out.getvalue(), rec, "console") == console, f"console shows {out.getvalue()!r}, expected {console}")
        for f, want in zip(files, ref):
            text = open(f).read() if os.path.exists(f) else ""
            rec.check(parse(text, rec, "file") == want, f"file holds {text!r}, expected {want}")
    finally:
        for n in NAMES:
            forget(n)
        shutil.rmtree(d)
    rec.trace()
    rec.state(hist)


def histories(job, rec):
    first, depth = job
    k = len(SETUPS) + len(MESSAGES)
    for n in range(depth):
        for rest in itertools.product(range(k), repeat=n):
            rec.at({"setups (logger, file, level)": SETUPS, "messages (logger, level)": MESSAGES, "history (operations)": (first,) + rest})
            history((first,) + rest, rec)
    rec.sample({"history (operations)": (first,) + rest})


def run(ctx):
    depth = 4 if ctx.quick else 5
    ctx.bounds = {"histories": f"all of up to {depth} operations out of {len(SETUPS)} ways to set up two loggers and {len(MESSAGES)} kinds of message, started with a set up"}
    ctx.assumptions = ["loggers whose names are not prefixes of each other, no handlers at the root"]
    ctx.explore("histories", histories, [(f, depth) for f in range(len(SETUPS))])
