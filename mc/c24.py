"""Entropy decoders that first try the channel alone: when the model is used, what it changes, and what it learns from."""
import itertools
import math
import numpy as np
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder
from mc import flight, wire
from mc.c18 import EPS
from mc.c22 import MAG, pack
from mc.core import same, debruijn
from mc.stub import SoftCode, Entropy


def segment(bits):
    """(messages found, everything is message)"""
    parts, st = wire.segment(pack(bits))
    return len(st), "U" not in parts


class Ref:
    def __init__(self, cfg, n):
        self.cfg, self.n = cfg, n
        rows = cfg["length"] if cfg.get("fixed") is None else min(cfg["length"], len(cfg["fixed"]))
        self.e = Entropy(1, rows, cfg["thr"], cfg["window"], fixed=cfg.get("fixed"))

    def second(self, channel):
        if self.cfg.get("fixed") is None and (self.e.size(0) == 0 or self.e.size(0) < self.cfg["min"]):
            return list(channel)
        out, p = list(channel), self.e.p1(0)
        top = self.cfg["clip"] * max(abs(x) for x in channel)
        for i in self.e.structural(0):
            if self.cfg["flipping"]:
                out[i] = int(p[i] > 0.5)
            else:
                out[i] += min(max(math.log((1 - p[i] + EPS) / (p[i] + EPS)), -top), top)
        return out

    def told(self, est):
        n, full = segment(est[:self.cfg["length"]])
        if full:
            self.e.learn(0, est)
        return n


def build(cfg, code):
    model = None if cfg.get("fixed") is None else np.array(cfg["fixed"], dtype=float)
    if cfg["flipping"]:
        return EntropyBitwiseFlippingDecoder(code, cfg["length"], cfg["thr"], cfg["min"], cfg["window"], model)
    return EntropyBitwiseDecoder(code, cfg["length"], cfg["thr"], cfg["clip"], cfg["min"], cfg["window"], model)


def step(dec, code, ref, channel, answers, rec):
    code.expect(*answers)
    arr = np.array(channel, dtype=np.int_ if ref.cfg["flipping"] else float)
    want = [list(channel)] if answers[0][1] else [list(channel), ref.second(channel)]
    out = dec.decode_buffer(arr)
    rec.step()
    rec.check(arr.tolist() == list(channel), "the channel word was changed")
    rec.check(len(code.asked) == len(want), f"the code decoder ran {len(code.asked)} times, expected {len(want)}")
    for a, w in zip(code.asked, want):
        diff = [(b, float(x), y) for b, (x, y) in enumerate(zip(a, w)) if not same(x, y)]
        rec.check(not diff, f"the code decoder was given other values (bit, given, expected): {diff[:6]}")
    g = code.given[-1]
    rec.check(same(out[0], g[0]) and same(out[1], g[1]) and bool(out[2]) == bool(g[2]) and out[3] == g[3], "what the code decoder answered is not what is returned")
    msgs = ref.told(g[0].tolist())
    rec.check(out[4] == msgs, f"{out[4]} messages reported, {msgs} found")


def voyage(steps, length, flipping, steady=False):
    """a long history: frames with slowly changing content, every kind of outcome of the two attempts in all successions of two"""
    n, out = length + 16, []
    for t, kind in enumerate((debruijn(7, 2) * 9 if not steady else [0, 2, 4, 1] * steps)[:steps]):
        f = wire.frame(245, bytes([10 + (t % 9 == 0), 20 + t % 2]), t % 256, 1, 3) + (wire.frame(0, seq=(t // 16) % 256) if length > 80 else b"")
        sent = (wire.bits_of(f) + [1, 0] * n)[:n]
        channel = [b ^ (i in ((7 * t) % n, (t * t) % n)[:kind]) for i, b in enumerate(sent)]
        if not flipping:
            channel = [(1 - 2 * b) * MAG[(i + t) % 200] for i, b in enumerate(channel)]
        part = sent[:length - 20] + [1 - b for b in sent[length - 20:]]
        none = sent[:40] + [1 - b for b in sent[40:]]
        out.append((channel, [[(sent, True)], [(sent, True)], [(none, False), (sent, True)], [(sent, False), (part, False)], [(none, False), (sent, False)], [(part, True)], [(sent, False), (part, True)]][kind]))
    return out


def life(job, rec):
    cfg, steps = job
    code = SoftCode(cfg["length"] + 16, cfg["length"] + 8)
    dec, ref = build(cfg, code), Ref(cfg, code.n)
    for t, (channel, answers) in enumerate(voyage(steps, cfg["length"], cfg["flipping"], cfg.get("steady"))):
        rec.at({"config": {**cfg, "fixed": cfg.get("fixed") is not None}, "buffer": t})
        step(dec, code, ref, channel, answers, rec)
        rec.state((str(cfg), t))
    rec.trace()
    rec.sample({"buffers": steps, "learnt": ref.e.size(0)})


def recorded_outcomes(steps, first, flipping=False):
    """a stretch of a recorded flight: decoded at once, by the second attempt, or only in part"""
    out = []
    for t, (channel, _, _) in enumerate(flight.outcomes(steps, 1296, first)):
        s = flight.sent(first + t, 1296)
        part = [b ^ (100 + 8 * t <= i < 104 + 8 * t) for i, b in enumerate(s)]
        channel = [int(x < 0) for x in channel] if flipping else channel
        out.append((channel, [[(s, True)], [(None, False), (s, True)], [(part, False), (part, False)], [(None, False), (part, True)], [(s, True)]][t % 5]))
    return out


def recorded(job, rec):
    cfg, first, steps = job
    code = SoftCode(1296, 1224)
    dec, ref = build(cfg, code), Ref(cfg, 1296)
    for t, (channel, answers) in enumerate(recorded_outcomes(steps, first, cfg["flipping"])):
        rec.at({"config": cfg, "from": first, "buffer": t})
        step(dec, code, ref, channel, answers, rec)
    rec.trace()
    rec.states_n(steps)
    rec.sample({"from": first, "buffers": steps, "learnt": ref.e.size(0)})


def histories(job, rec):
    cfg, (n, k), ops, first, depth = job
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        rec.at({"config": {**cfg, "fixed": cfg.get("fixed") is not None}, "history (operations)": (first,) + rest})
        code = SoftCode(n, k)
        dec, ref = build(cfg, code), Ref(cfg, n)
        for i in (first,) + rest:
            step(dec, code, ref, *ops[i], rec)
        rec.trace()
        rec.states_n(1)
    rec.sample({"history (operations)": (first,) + rest, "buffers learnt": ref.e.size(0), "structural": len(ref.e.structural(0))})


def operations(n, length, flipping):
    """(channel, answers of the code decoder)"""
    f = [wire.frame(245, p, s, 1, 3) for p, s in ((b"\x0a\x14", 0), (b"\x0c\x15", 1), (b"\xf5\xeb", 2))]
    if length > 80:
        f = [x + y for x, y in zip(f, f[1:] + f[:1])]
    sent = [(wire.bits_of(x) + [1, 0] * n)[:n] for x in f]
    half = sent[0][:40] + [1 - b for b in sent[0][40:]]  # nothing to be found, at least in the first frame
    part = sent[1][:length - 20] + [1 - b for b in sent[1][length - 20:]]

    def ch(bits, flips):
        bits = [b ^ (i in flips) for i, b in enumerate(bits)]
        # a word with three errors also has three samples without any information
        return bits if flipping else [(1 - 2 * b) * MAG[(i + len(flips)) % 200] * (len(flips) != 3 or i not in (9, 30, 77)) for i, b in enumerate(bits)]
    return [(ch(sent[0], ()), [(sent[0], True)]), (ch(sent[1], (7,)), [(sent[1], True)]), (ch(sent[2], (3, 60)), [(half, False), (sent[2], True)]),
            (ch(sent[1], (3, 9, 44)), [(sent[1], False), (part, False)]), (ch(sent[0], (20, 70)), [(half, False), (sent[0], False)]), (ch(sent[2], (1,)), [(part, True)]),
            (ch(sent[1], (5, 50)), [(sent[1], False), (part, True)])]


def fixed(rows):
    return [[(1.0, 0.9, 0.4, 0.05, 0.0)[i % 5], 1 - (1.0, 0.9, 0.4, 0.05, 0.0)[i % 5]] for i in range(rows)]


def run(ctx):
    q, jobs = ctx.quick, []
    for flipping in (False, True):
        def add(nk, depth, pick=range(7), **kw):
            cfg = dict(flipping=flipping, length=80, thr=0.95, clip=1.5, min=2, window=None)
            cfg.update(kw)
            ops = [operations(nk[0], cfg["length"], flipping)[i] for i in pick]
            jobs.extend((cfg, nk, ops, f, depth) for f in range(len(ops)))
        for mn, window, thr, clip in itertools.product((1, 2, 3), (None, 1, 2), (0.5, 0.95), (0.75, 30)):
            if window and window < mn or flipping and clip != 30:
                continue
            add((96, 88), 3 if q else 4, min=mn, window=window, thr=thr, clip=clip)
        add((96, 88), 4 if q else 6, (0, 2, 3, 4, 6), min=1)
        add((96, 80), 3, min=0)
        for thr in (0.0, 1.0, 1.25):  # no bit, every bit that is not a fair coin, every bit
            add((96, 88), 3 if q else 4, (0, 2, 3, 4, 6), thr=thr, clip=30)
        add((176, 168), 3 if q else 4, min=1, length=160)
        for rows in (80, 96, 40, 1):
            add((96, 88), 2 if q else 3, fixed=fixed(rows))
    ctx.bounds = {"histories": "all of 2-4 (thorough up to 6) buffers, each one of 7 combinations of sent frames, channel errors and answers of the code decoder to its one or two calls",
                  "settings": f"{len({str(j[:2]) for j in jobs})}, soft and flipping"}
    ctx.assumptions = ["information bits come first in the code word", "model length is a whole number of bytes"]
    ctx.explore("histories", histories, jobs)
    ctx.bounds["life"] = "200 (600) buffers, all successions of two kinds of outcome, windows none/5/50, minimum 1/10/40"
    ctx.explore("life", life, [(dict(flipping=fl, length=ln, thr=thr, clip=1.5, min=mn, window=w, fixed=fx), 200 if q else 600) for fl in (False, True) for ln in (80, 216) for thr in (0.36, 0.9)
                               for mn, w, fx in [(1, None, None), (10, None, None), (40, None, None), (5, 5, None), (10, 50, None), (0, 20, None), (1, None, fixed(64))]] +
                [(dict(steady=True, flipping=fl, length=80, thr=0.36, clip=1.5, min=5, window=w), 560 if q else 1100) for fl in (False, True) for w in (None, 300)])
    ctx.bounds["recorded"] = "stretches of 40 (150) buffers of a recorded flight, 3 settings, soft and flipping"
    ctx.explore("recorded", recorded, [(dict(flipping=fl, length=1224, thr=thr, clip=clip, min=mn, window=w), first, 40 if q else 150)
                                       for fl in (False, True) for thr, clip, mn, w, first in ((0.36, 1.5, 5, None, 0), (0.6, 5.0, 10, 15, 300), (0.36, 20.0, 1, 5, 500))])
