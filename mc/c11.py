"""Field models: mean, deviation and outlier probability are those of exactly the samples in the window, at any moment."""
import itertools
import math
import re
import numpy as np
from inference.statistical_models import FieldModel
from mc.core import same, debruijn
from mc import wire
from mc.c10 import want as wire_bits

NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")
PROBES = (-3, 0, 1, 2.5, 7)


class Ref:
    def __init__(self, window):
        self.window, self.samples = window, []

    def add(self, s):
        self.samples += s if isinstance(s, list) else [s]
        if self.window is not None:
            self.samples = self.samples[-self.window:]

    def fit(self):
        x = [float(s) for s in self.samples if math.isfinite(s)]
        if not x:
            return math.nan, math.nan
        m = math.fsum(x) / len(x)
        return m, math.sqrt(math.fsum((v - m) ** 2 for v in x) / len(x))

    def classify(self, v):
        m, s = self.fit()
        v = float(v)
        if s == 0:
            return (1, 0) if v == m else (0, 0)
        return math.erfc(abs(m - v) / s / math.sqrt(2)), s


READS = ("mean", "std", "classify", "pdf", "cdf", "bits", "size", "text")


def read(model, ref, what, typ, rec):
    m, s = ref.fit()
    if what == "size":
        rec.check(model.model_size == len(ref.samples) and same(list(model.samples), ref.samples), f"samples held {model.samples}, expected {ref.samples}")
    elif not ref.samples:
        return
    elif what == "mean":
        rec.check(same(model.mean, m), f"mean {model.mean}, of the window {m}")
    elif what == "std":
        rec.check(same(model.std, s), f"std {model.std}, of the window {s}")
    elif math.isnan(m):
        return
    elif what == "classify":
        for v in PROBES + (m, m + s, m - 1.5 * s):
            rec.check(same(model.classify_value(v), ref.classify(v)), f"value {v} classified {model.classify_value(v)}, expected {ref.classify(v)}")
    elif what in ("pdf", "cdf") and s > 0:
        for v in (2.5, m + s):
            w = math.exp(-((v - m) / s) ** 2 / 2) / s / math.sqrt(2 * math.pi) if what == "pdf" else math.erfc(-(v - m) / s / math.sqrt(2)) / 2
            rec.check(same(getattr(model, what)(v), w), f"{what}({v}) is {getattr(model, what)(v)}, expected {w}")
    elif what == "text":
        text = str(model)
        shown = [float(x) for x in NUMBER.findall(text.rpartition(":")[2])]
        rec.check(same(shown, [m, s]), f"printed as {text}, the mean is {m} and the deviation {s}")
    elif what == "bits":
        if typ != "float" and abs(m - math.floor(m) - 0.5) < 1e-9:
            return  # a tie: either neighbour is nearest
        rec.check(np.asarray(model.bitwise_mean()).tolist() == wire_bits(m if typ == "float" else round(m), typ) or
                  (typ == "float" and m != int(m)), f"mean bits do not represent {m}")


def histories(job, rec):
    typ, window, adds, first, depth = job
    ops = [("add", a) for a in adds] + [("read", r) for r in READS]
    for n in range(depth):
        for rest in itertools.product(range(len(ops)), repeat=n):
            hist = (first,) + rest
            if any(ops[a][0] == "read" and ops[b][0] == "read" and a >= b for a, b in zip(hist, hist[1:])):
                continue  # reads commute: consecutive reads only in ascending order
            rec.at({"type": typ, "window": window, "history": [ops[i] for i in hist]})
            model, ref = FieldModel("f", typ, window), Ref(window)
            for i in hist:
                kind, a = ops[i]
                if kind == "add":
                    model.add_sample(list(a) if isinstance(a, list) else a)
                    ref.add(list(a) if isinstance(a, list) else a)
                else:
                    read(model, ref, a, typ, rec)
                rec.step()
            for r in READS:
                read(model, ref, r, typ, rec)
            rec.trace()
            rec.state((typ, window, tuple(ref.samples), hist[-1]))
    rec.sample({"type": typ, "window": window, "history": [str(ops[i]) for i in hist], "fit": ref.fit()})


def long_run(job, rec):
    """one long history per window and period: the window slides for many steps"""
    typ, window, period = job
    model, ref = FieldModel("f", typ, window), Ref(window)
    for t in range(300):
        v = (t * period) % 17
        rec.at({"type": typ, "window": window, "period": period, "t": t})
        model.add_sample(v)
        ref.add(v)
        for r in READS:
            read(model, ref, r, typ, rec)
        rec.step()
        rec.state((typ, window, period, t))
    rec.trace()


def every_order(job, rec):
    """one history that contains every sequence of three operations"""
    typ, window, adds = job
    ops = [("add", a) for a in adds] + [("read", r) for r in READS]
    model, ref = FieldModel("f", typ, window), Ref(window)
    for t, i in enumerate(debruijn(len(ops), 3)):
        kind, a = ops[i]
        rec.at({"type": typ, "window": window, "step": t, "operation": (kind, a)})
        if kind == "add":
            model.add_sample(list(a) if isinstance(a, list) else a)
            ref.add(list(a) if isinstance(a, list) else a)
        else:
            read(model, ref, a, typ, rec)
        rec.step()
        rec.state((typ, window, t, "every"))
    rec.trace()


def run(ctx):
    depth = 4 if ctx.quick else 5
    jobs = []
    kinds = (("uint8_t", [0, 7, 7.0, [1, 2, 200], []]), ("float", [0.5, -4.25, math.inf, math.nan, [1.5, 1.5, -2]]), ("int32_t", [-3, 100000, [5, 5]]), ("float", [2.0 ** -27, 2.0 ** -45, [-2.0 ** -26, 2.0 ** -60]]))
    for typ, adds in kinds:
        for window in (None, 1, 2, 3):
            jobs += [(typ, window, adds, f, depth) for f in range(len(adds) + len(READS))]
    ctx.bounds = {"histories": f"all sequences of up to {depth} operations (add one, add several, 8 kinds of read) per type and window",
                  "windows": "none, 1, 2, 3; slid for 300 steps: 1..12, 50, 256; for a history with every three operations in a row: none, 1, 7, 40, 300"}
    ctx.assumptions = ["window sizes of at least 1"]
    ctx.explore("histories", histories, jobs)
    ctx.explore("long", long_run, [(t, w, p) for t in ("uint8_t", "float", "int64_t") for w in (None, 1, 2, 3, 5, 8, 12, 50, 256) for p in (1, 3, 5, 6)])
    ctx.explore("every order", every_order, [(t, w, a) for t, a in kinds for w in (None, 1, 7, 40, 300)])
