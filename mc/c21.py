"""Denoiser based decoder: each model bit of each cluster has a denoiser of its own, fed with the channel bits in order."""
import itertools
import math
import numpy as np
from ldpc.decoder import LogSpaDecoder
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder
from mc import flight
from mc.c14 import long_stream
from mc.core import same, optional
from mc.c16 import Ref as Dude
from mc.c18 import EPS
from mc.c19 import WORDS, H, INFO, steady
from mc.stub import SoftCode, Labels, confidence


class Ref:
    def __init__(self, cfg):
        f = cfg["flip"]
        self.cfg = cfg
        self.dudes = [[Dude([[1 - f, f], [f, 1 - f]], [[0, 1], [1, 0]], cfg["context"], False) for _ in range(cfg["length"])] for _ in range(cfg["clusters"])]
        self.size = [0] * cfg["clusters"]
        self.labels = Labels(cfg["clusters"], cfg["cluster"], cfg["training"])

    def ask(self, channel):
        hard = [int(x < 0) for x in channel]
        label = self.labels.of(hard[:self.cfg["length"]])
        if label < 0:
            return label, list(channel)
        self.size[label] += 1
        c = confidence(self.size[label], self.cfg["center"], self.cfg["slope"])
        out = list(channel)
        for i, d in enumerate(self.dudes[label]):
            p = d.step(hard[i])[0][1]
            out[i] += c * math.log((1 - p + EPS) / (p + EPS))
        top = self.cfg["clip"] * max(abs(x) for x in channel)
        return label, [min(max(x, -top), top) for x in out]


def build(cfg, code):
    return ClassifyingDudeDecoder(code, cfg["length"], cfg["clip"], cfg["training"], cfg["clusters"], cfg["context"], **optional(
        dict(conf_center=40, conf_slope=0.35, bit_flip=0.0, cluster=1), dict(conf_center=cfg["center"], conf_slope=cfg["slope"], bit_flip=cfg["flip"], cluster=cfg["cluster"])))


def step(dec, code, ref, w, a, rec):
    label, want = ref.ask(w)
    code.expect(a)
    arr = np.array(w, dtype=float)
    est, llr, success, its, lab, denoised = dec.decode_buffer(arr)
    rec.step()
    rec.check(arr.tolist() == list(w), "the channel word was changed")
    rec.check(len(code.asked) == 1 and same(code.asked[0], want, 1e-8), f"the code decoder was given {[x.tolist() for x in code.asked]}, expected {want}")
    g = code.given[0]
    rec.check(same(est, g[0]) and same(llr, g[1]) and bool(success) == bool(g[2]) and its == g[3], "what the code decoder answered is not what is returned")
    rec.check(lab == label, f"label {lab}, expected {label}")
    rec.check(len(denoised) == len(w) and all(int(d) == int(x < 0) or abs(x) < 1e-9 and (i < ref.cfg["length"] and w[i] != 0) for i, (d, x) in enumerate(zip(denoised, want))), f"denoised bits {np.asarray(denoised).tolist()} of {want}")
    return want


def life(job, rec):
    """200 buffers of 16 model bits"""
    cfg, steps = job
    code = SoftCode(24, 20)
    ref = Ref(cfg)
    if cfg.get("plain"):  # confidence, channel and classification as they are by default
        dec = ClassifyingDudeDecoder(code, cfg["length"], cfg["clip"], cfg["training"], cfg["clusters"], cfg["context"])
    else:
        dec = build(cfg, code)
    for t, w in enumerate((steady if cfg.get("steady") else long_stream)(2, 16, steps)):
        sent = list(w) + [w[i] ^ w[(i + t) % 16] for i in range(8)]
        channel = [(1 - 2 * b) * ((3 * i + 5 * t) % 11 + 1) / 4 for i, b in enumerate(sent)]
        if t % 5 == 1:  # some samples say nothing
            channel[t % 24] = channel[7 * t % 24] = 0.0
        rec.at({"config": cfg, "buffer": t})
        step(dec, code, ref, channel, ((None, True), (sent, True), ([1 - b for b in sent], False))[(t // 3 + t * t) % 3], rec)
        rec.state((cfg, t))
    rec.trace()
    rec.sample({"config": cfg, "buffers": steps})


def recorded(job, rec):
    """a stretch of a recorded flight"""
    cfg, first, steps = job
    code = SoftCode(1300, 1230)
    dec, ref = build(cfg, code), Ref(cfg)
    for t, (channel, _, answer) in enumerate(flight.outcomes(steps, 1300, first)):
        rec.at({"config": cfg, "from": first, "buffer": t})
        step(dec, code, ref, channel, answer[0], rec)
    rec.trace()
    rec.states_n(steps)


def histories(job, rec):
    cfg, words, answers, first, depth = job
    ops = list(itertools.product(words, answers))
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        hist = [ops[i] for i in (first,) + rest]
        rec.at({"config": cfg, "history": hist})
        code = SoftCode(5, 3)
        dec, ref = build(cfg, code), Ref(cfg)
        for w, a in hist:
            want = step(dec, code, ref, w, a, rec)
        rec.trace()
        rec.states_n(1)
    rec.sample({"config": cfg, "last history": hist, "given to the code decoder": want})


def real(job, rec):
    first, depth = job
    words = [[(1 - 2 * b) * m * (-1 if i == e else 1) for i, (b, m) in enumerate(zip((u[0], u[1], u[2], u[0] ^ u[1], u[1] ^ u[2], u[0] ^ u[2]), (2.0, 1.5, 1.0, 0.5, 1.25, 0.75)))]
             for u in ((0, 0, 0), (1, 0, 1)) for e in (None, 0, 4)]
    cfg = dict(clusters=1, cluster=1, training=3, context=1, flip=0.1, length=3, clip=3.0, center=2, slope=0.7)
    for rest in itertools.product(range(len(words)), repeat=depth - 1):
        rec.at({"code": "6,3", "history": (first,) + rest})
        dec, plain, ref = build(cfg, LogSpaDecoder(H, 10, INFO)), LogSpaDecoder(H, 10, INFO), Ref(cfg)
        for i in (first,) + rest:
            _, want = ref.ask(words[i])
            out, exp = dec.decode_buffer(np.array(words[i])), plain.decode(np.array(want))
            rec.check(same(out[0], exp[0]) and same(out[1], exp[1], 1e-6) and bool(out[2]) == bool(exp[2]), f"estimate {out[0].tolist()}, the code decoder alone gives {exp[0].tolist()}")
            rec.step()
        rec.trace()
        rec.states_n(1)


def run(ctx):
    jobs = []
    a2 = [(None, True), ((1, 0, 0, 1, 0), False)]

    def add(words, answers, depth, **kw):
        cfg = dict(clusters=1, cluster=1, training=3, context=1, flip=0.1, length=3, clip=1.5, center=2, slope=0.7)
        cfg.update(kw)
        for f in range(len(words) * len(answers)):
            jobs.append((cfg, words, answers, f, depth))
    q = ctx.quick
    for context, flip, clip in itertools.product((0, 1, 2, 3), (0.0, 0.1, 0.3), (1.5, 20.0)):
        add(WORDS[:3 if q else 4], a2[:1], 5 if q else 6, context=context, flip=flip, clip=clip, slope=0.7 if clip > 2 else 3.0)
    for length in (1, 2, 4, 5):
        add(WORDS[:3], a2, 4, length=length)
        add(WORDS[:3], a2, 4, length=length, clip=0.5)
    for clusters in (2, 3):
        add(WORDS[:2], a2, 6 if q else 7, clusters=clusters, cluster=0)
        add(WORDS[:3], a2[:1], 6 if q else 7, clusters=clusters, training=clusters + 1, center=1)
    ctx.bounds = {"histories": "all of 4-6 (thorough up to 7) buffers, each one of 2-4 words with one of 1-2 answers", "settings": f"{len({str(j[0]) for j in jobs})}: context 0..3, channel, clipping, clusters",
                  "real code": f"(6,3) code, all histories of {3 if q else 4} out of 6 words", "life": "200 (600) buffers of 16 bits, 30 settings, context up to 5"}
    ctx.assumptions = ["information bits come first in the code word"]
    ctx.explore("histories", histories, jobs)
    ctx.explore("real", real, [(f, 3 if q else 4) for f in range(6)])
    base = dict(clusters=1, cluster=1, training=12, context=2, flip=0.0473, length=16, clip=3.0, center=40, slope=0.35)
    ctx.explore("life", life, [(dict(base, **kw), 560 if kw.get("steady") else 200 if q else 600) for kw in
                               [dict(context=c, flip=f, center=ce) for c in range(6) for f in (0.0473, 0.21) for ce in (40, 8)] +
                               [dict(context=c, steady=True) for c in (0, 2)] + [dict(clusters=c, cluster=kind, center=8) for c in (2, 5) for kind in (0, 1)] + [dict(plain=True, flip=0, clusters=c) for c in (1, 3)] +
                               [dict(center=ce, slope=0.02, clip=cl, clusters=c, cluster=0) for ce in (0, 1, 3) for cl, c in ((0.5, 1), (20.0, 2))]])
    ctx.bounds["recorded"] = "stretches of 25 (100) buffers of a recorded flight, 4 settings"
    ctx.explore("recorded", recorded, [({**base, "length": 1224, "training": 6, **kw}, first, 25 if q else 100) for first, kw in
                                       [(0, dict(context=1)), (300, dict(context=3, center=8)), (100, dict(clusters=2, center=8)), (500, dict(clusters=2, cluster=0, context=0, flip=0.0))]])
