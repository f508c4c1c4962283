"""Weighted entropy decoder: one model of recovered buffers, one of all buffers, and how much each is trusted."""
import itertools
import math
import numpy as np
from decoders.entropy_bitwise_decoder import EntropyBitwiseWeightedDecoder
from mc.c18 import EPS
from mc.c24 import operations, recorded_outcomes, segment, voyage
from mc.core import same
from mc.stub import SoftCode, Entropy, confidence


class Counts(Entropy):
    """what was observed of each bit. The mode of the posterior of a uniform prior is the relative frequency; beyond twice the window (prior included)
    the counts of each bit shrink to the smallest in the same ratio, times what the window has room for"""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.ones, self.zeros = [0] * self.length, [0] * self.length

    def size(self, label):
        return self.ones[0] + self.zeros[0]

    def p1(self, label):
        if not self.size(0):
            return []
        return [min(max((o / (o + z) - self.flip) / (1 - 2 * self.flip), 0), 1) for o, z in zip(self.ones, self.zeros)]

    def learn(self, label, bits):
        for i in range(self.length):
            self.ones[i] += int(bits[i])
            self.zeros[i] += 1 - int(bits[i])
        if self.size(0) + 2 > 2 * self.window:
            for i, (o, z) in enumerate(zip(self.ones, self.zeros)):
                g = math.gcd(o, z)
                k = max(self.window // ((o + z) // g), 1)
                self.ones[i], self.zeros[i] = o // g * k, z // g * k


class Ref:
    def __init__(self, cfg, n):
        self.cfg, self.n, self.bayes = cfg, n, cfg.get("estimator") == "Bayes"
        flip = cfg["flip"] if cfg["corrected"] or self.bayes else 0.0
        self.m = [(Counts if self.bayes else Entropy)(1, cfg["length"], cfg["thr"], cfg["window"], flip=flip) for _ in "ab"]

    def variance(self, m):
        """relative to that of a fair bit, or (Bayes) of the uniform prior"""
        if not m.size(0):
            return math.inf
        if not self.bayes:
            p = m.p1(0)
            return 2 * sum(x - x * x for x in p) / len(p)
        total = 0.0
        for o, z in zip(m.ones, m.zeros):
            size = o + z + 2
            total += (o + 1) * (z + 1) / ((size + 1) * size ** 2)
        return 12 * total / m.length / (1 - 2 * self.cfg["flip"]) ** 2

    def second(self, channel):
        a, b = self.m
        if not a.structural(0) and not b.structural(0):
            return list(channel)
        conf = [confidence(m.size(0), c, s) for m, (c, s) in zip(self.m, self.cfg["conf"])]
        scheme = self.cfg["scheme"]
        if scheme in (1, 2):
            share = [conf[0] * scheme, conf[1]]
            if sum(share) > 0:
                conf = [c * x / sum(share) for c, x in zip(conf, share)]
        elif scheme == 3:
            conf[1] = 0
        elif scheme == 5:
            conf[0] = 0
        elif scheme == 4:
            for i, m in enumerate(self.m):
                v = self.variance(m)
                conf[i] *= 1 - (math.exp(-0.1 / v) if v > 0 else 0.0)
        out = list(channel)
        for c, m in zip(conf, self.m):
            if c > 0:
                p = m.p1(0)
                for i in m.structural(0):
                    out[i] += c * math.log((1 - p[i] + EPS) / (p[i] + EPS))
        top = self.cfg["clip"] * max(abs(x) for x in channel)
        return [min(max(x, -top), top) for x in out]

    def told(self, est, channel, first_ok):
        msgs, full = segment(est[:self.cfg["length"]])
        if full:
            self.m[0].learn(0, est)
        self.m[1].learn(0, est if first_ok or full else [int(x < 0) for x in channel])
        return msgs


def step(dec, code, ref, channel, answers, rec):
    code.expect(*answers)
    arr = np.array(channel, dtype=float)
    want = [list(channel)] if answers[0][1] else [list(channel), ref.second(channel)]
    out = dec.decode_buffer(arr)
    rec.step()
    rec.check(arr.tolist() == list(channel), "the channel word was changed")
    rec.check(len(code.asked) == len(want), f"the code decoder ran {len(code.asked)} times, expected {len(want)}")
    for a, w in zip(code.asked, want):
        diff = [(b, float(x), y) for b, (x, y) in enumerate(zip(a, w)) if not same(x, y)]
        rec.check(not diff, f"the code decoder was given other values (bit, given, expected): {diff[:6]}")
    g = code.given[-1]
    rec.check(same(out[0], g[0]) and same(out[1], g[1]) and bool(out[2]) == bool(g[2]) and out[3] == g[3] and same(out[4], g[4]) and same(out[5], g[5]),
              "what the code decoder answered is not what is returned")
    msgs = ref.told(g[0].tolist(), channel, answers[0][1])
    rec.check(out[6] == msgs, f"{out[6]} messages reported, {msgs} found")
    for k2, m in enumerate(ref.m):
        d = m.distribution(0)
        rec.check(same(out[7 + k2], d) if d else np.asarray(out[7 + k2]).size == 0, f"distribution of the {'recovered all'.split()[k2]} buffers differs")
        rec.check([int(x) for x in out[9 + k2]] == m.structural(0), f"structural bits of the {'recovered all'.split()[k2]} buffers differ")


def build(cfg, code):
    if cfg.get("plain"):  # all history, the default confidence, the raw channel
        return EntropyBitwiseWeightedDecoder(code, cfg["length"], cfg["thr"], cfg["clip"])
    (ac, as_), (bc, bs) = cfg["conf"]
    return EntropyBitwiseWeightedDecoder(code, cfg["length"], cfg["thr"], cfg["clip"], cfg["window"], ac, as_, bc, bs, cfg["scheme"], cfg.get("estimator", "MLE"), cfg["flip"], cfg["corrected"])


def life(job, rec):
    cfg, steps = job
    code = SoftCode(cfg["length"] + 16, cfg["length"] + 8)
    dec, ref = build(cfg, code), Ref(cfg, code.n)
    for t, (channel, answers) in enumerate(voyage(steps, cfg["length"], False, cfg.get("steady"))):
        rec.at({"config": cfg, "buffer": t})
        step(dec, code, ref, channel, answers, rec)
        rec.state((str(cfg), t))
    rec.trace()
    rec.sample({"config": cfg, "buffers": steps, "learnt": [m.size(0) for m in ref.m]})


def recorded(job, rec):
    cfg, first, steps = job
    code = SoftCode(1296, 1224)
    dec, ref = build(cfg, code), Ref(cfg, 1296)
    for t, (channel, answers) in enumerate(recorded_outcomes(steps, first)):
        rec.at({"config": cfg, "from": first, "buffer": t})
        step(dec, code, ref, channel, answers, rec)
    rec.trace()
    rec.states_n(steps)
    rec.sample({"from": first, "buffers": steps, "learnt": [m.size(0) for m in ref.m]})


def histories(job, rec):
    cfg, (n, k), ops, first, depth = job
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        rec.at({"config": cfg, "history (operations)": (first,) + rest})
        code = SoftCode(n, k)
        dec, ref = build(cfg, code), Ref(cfg, n)
        for i in (first,) + rest:
            step(dec, code, ref, *ops[i], rec)
        rec.trace()
        rec.states_n(1)
    rec.sample({"config": cfg, "history (operations)": (first,) + rest, "learnt": [m.size(0) for m in ref.m]})


def run(ctx):
    q, jobs = ctx.quick, []

    def add(nk, depth, pick=range(7), **kw):
        cfg = dict(length=80, thr=0.95, clip=1.5, window=None, conf=((2, 0.7), (3, 1.5)), scheme=0, flip=0.0, corrected=False)
        cfg.update(kw)
        ops = [operations(nk[0], cfg["length"], False)[i] for i in pick]
        jobs.extend((cfg, nk, ops, f, depth) for f in range(len(ops)))
    for scheme in range(6):
        add((96, 88), 4 if q else 5, (0, 2, 3, 4, 6), scheme=scheme, window=None if scheme % 2 else 3)
        add((96, 88), 3 if q else 4, scheme=scheme, clip=30.0, flip=0.06, corrected=scheme % 2 == 0, conf=((1, 0.5), (2, 0.3)))
    for window, thr in itertools.product((1, 2, 3), (0.5, 0.95)):
        add((96, 88), 3 if q else 4, window=window, thr=thr, flip=0.06, corrected=True)
    add((176, 168), 3, length=160)
    for scheme in range(6):  # 2 * window - 2 buffers are counted, then the counts are thinned out
        add((96, 88), 3 if q else 4, scheme=scheme, estimator="Bayes", window=4, flip=(0.0, 0.06)[scheme % 2], conf=((1, 0.5), (2, 0.3)))
        add((96, 88), 5 if q else 6, (0, 2, 4, 6) if q else (0, 2, 3, 4, 6), scheme=scheme, estimator="Bayes", window=(2, 3)[scheme % 2], flip=(0.0, 0.06)[scheme // 3], conf=((1, 0.5), (2, 0.3)))
    for thr in (0.0, 1.0, 1.25):  # no bit, every bit that is not a fair coin, every bit
        add((96, 88), 3 if q else 4, (0, 2, 3, 4, 6), thr=thr)
    ctx.bounds = {"histories": "all of 3-4 (thorough up to 5) buffers, each one of 7 combinations of sent frames, channel errors and answers of the code decoder to its one or two calls",
                  "settings": f"{len({str(j[:2]) for j in jobs})}, all six confidence schemes"}
    ctx.assumptions = ["information bits come first in the code word", "model length is a whole number of bytes", "the Bayes estimator is given a window"]
    ctx.explore("histories", histories, jobs)
    ctx.bounds["life"] = "200 (600) buffers, all successions of two kinds of outcome, all schemes, windows none/5/50"
    base = dict(length=80, thr=0.36, clip=1.5, window=None, conf=((20, 0.35), (40, 0.35)), scheme=0, flip=0.0, corrected=False)
    ctx.explore("life", life, [(dict(base, **kw), 560 if kw.get("steady") else 200 if q else 600) for kw in
                               [dict(scheme=sc, window=w, thr=0.36 if sc % 2 else 0.9, flip=0.0473 if w else 0.0, corrected=w == 50) for sc in range(6) for w in (None, 5, 50)] +
                               [dict(steady=True), dict(steady=True, window=300, scheme=2)] + [dict(estimator="Bayes", window=w, scheme=sc, flip=(0.0, 0.0473)[sc % 2], thr=(0.36, 0.9)[sc % 2]) for sc in range(6) for w in (400, 7, 60)] + [dict(plain=True), dict(plain=True, length=216, clip=20.0), dict(length=216, conf=((5, 0.2), (8, 0.1)), window=30), dict(conf=((60, 0.05), (10, 3.0)), scheme=1)]])
    ctx.bounds["recorded"] = "stretches of 40 (150) buffers of a recorded flight, all schemes"
    ctx.explore("recorded", recorded, [(dict(base, length=1224, scheme=sc, window=(None, 20)[sc % 2], conf=((8, 0.35), (12, 0.35))), 100 * sc, 40 if q else 150) for sc in range(6)])
