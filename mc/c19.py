"""Entropy based decoder over a soft code decoder: what the code decoder is given, what is learnt, what is returned."""
import itertools
import numpy as np
from ldpc.decoder import LogSpaDecoder
from decoders.classifiying_decoder import ClassifyingEntropyDecoder
from mc import flight
from mc.c14 import long_stream, steady
from mc.core import same
from mc.stub import SoftCode, WbfCode, GalCode, Entropy, Labels

CODES = {"soft": SoftCode, "wbf": WbfCode, "gal": GalCode}


class Ref:
    def __init__(self, cfg, n, k):
        self.cfg, self.n = cfg, n
        self.e = Entropy(cfg["clusters"], cfg["length"], cfg["thr"], cfg["window"], cfg["center"], cfg["slope"], cfg["flip"], cfg.get("fixed"))
        self.labels = Labels(cfg["clusters"], cfg["cluster"], cfg["training"])

    def ask(self, channel):
        """(label, what the code decoder must be given, priors)"""
        self.channel = channel
        hard = [int(x < 0) for x in channel]
        label = self.labels.of(hard[:self.cfg["length"]])
        if label < 0:
            return label, list(channel)
        model = self.e.llr(label, self.n)
        top = max(abs(x) for x in channel)
        if self.cfg["code"] == "soft":
            c = self.cfg["clip"] * top
            return label, [min(max(a + b, -c), c) for a, b in zip(channel, model)]
        mtop = max(abs(x) for x in model)
        if mtop == 0:
            return label, list(channel)
        if self.cfg.get("method", 0) == 3:
            bits = list(hard)
            if self.e.size(label) >= self.cfg["window"]:
                for i in self.e.structural(label):
                    bits[i] = int(model[i] < 0)
            return label, [1.0 - 2 * b for b in bits]
        scale = top / mtop if mtop > top else 1.0
        s = [a + b * scale for a, b in zip(channel, model)]
        stop = max(abs(x) for x in s)
        return label, [x * top / stop for x in s]

    def told(self, label, estimate, success):
        if label >= 0:
            self.e.learn(label, estimate if success else [int(x < 0) for x in self.channel])


def build(cfg, code):
    kw = {} if cfg.get("fixed") is None else {"data_model": np.array(cfg["fixed"], dtype=float)}
    return ClassifyingEntropyDecoder(code, cfg["length"], cfg["thr"], cfg["clip"], cfg["training"], cfg["clusters"], cfg["window"],
                                     cfg["center"], cfg["slope"], cfg["flip"], cfg["cluster"], reliability_method=cfg.get("method", 0), **kw)


def asked_ok(code, kind, want, channel):
    got = code.asked[0]
    if kind == "gal":
        hard = [int(x < 0) for x in got] if min(got) < 0 else [int(x) for x in got]
        return all(h == int(w < 0) or (abs(w) < 1e-9 and c != 0) for h, w, c in zip(hard, want, channel))
    if kind == "wbf" and code.kwargs[0] is not None and not same(code.kwargs[0], np.zeros(len(want))):
        return False
    return same(got, want)


def step(dec, code, ref, channel, answer, rec, kind):
    label, want = ref.ask(channel)
    code.expect(answer)
    arr = np.array(channel, dtype=float)
    out = dec.decode_buffer(arr)
    rec.step()
    rec.check(arr.tolist() == list(channel), "the channel word was changed")
    rec.check(len(code.asked) == 1, f"the code decoder ran {len(code.asked)} times")
    rec.check(asked_ok(code, kind, want, channel), f"the code decoder was given {code.asked[0].tolist()}, expected {want}")
    est, llr, success, its, syn, val, dist, struct, lab = out
    g = code.given[0]
    rec.check(same(est, g[0]) and bool(success) == bool(g[2]) and its == g[3] and same(syn, g[4]) and same(val, g[5]), "what the code decoder answered is not what is returned")
    rec.check(same(llr, g[1]) if kind == "soft" else np.asarray(llr).size == 0, "soft output is not that of the code decoder")
    rec.check(lab == label, f"label {lab}, expected {label}")
    ref.told(label, g[0].tolist(), answer[1])
    if label < 0:
        rec.check(np.asarray(dist).size == 0 and np.asarray(struct).size == 0, "a model is returned while gathering data")
    else:
        rec.check(same(dist, ref.e.distribution(label)), f"distribution {np.asarray(dist).tolist()}, expected {ref.e.distribution(label)}")
        rec.check([int(x) for x in struct] == ref.e.structural(label), f"structural bits {np.asarray(struct).tolist()}, expected {ref.e.structural(label)}")


def histories(job, rec):
    cfg, (n, k), words, answers, first, depth = job
    ops = list(itertools.product(words, answers))
    seen = set()
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        hist = [ops[i] for i in (first,) + rest]
        rec.at({"config": cfg, "history": hist})
        code = CODES[cfg["code"]](n, k)
        dec, ref = build(cfg, code), Ref(cfg, n, k)
        for w, a in hist:
            step(dec, code, ref, w, a, rec, cfg["code"])
        rec.trace()
        seen.add(tuple(tuple(map(tuple, d)) for d in ref.e.data))
        rec.states_n(1)
    rec.sample({"config": cfg, "last history": hist, "distinct learnt models": len(seen)})


def life(job, rec):
    """200 buffers of 16 model bits: every pair of kinds of buffer and answers in succession"""
    cfg, steps = job
    n, k = 24, 20
    code = CODES[cfg["code"]](n, k)
    ref = Ref(cfg, n, k)
    if cfg.get("plain"):  # window, confidence, channel and classification as they are by default
        dec = ClassifyingEntropyDecoder(code, cfg["length"], cfg["thr"], cfg["clip"], cfg["training"], cfg["clusters"])
    else:
        dec = build(cfg, code)
    for t, w in enumerate((steady if cfg.get("steady") else long_stream)(2, 16, steps)):
        sent = list(w) + [w[i] ^ w[(i + t) % 16] for i in range(8)]
        channel = [(1 - 2 * b) * ((3 * i + 5 * t) % 11 + 1) / 4 for i, b in enumerate(sent)]
        if t % 5 == 1:  # some samples say nothing
            channel[t % 24] = channel[7 * t % 24] = 0.0
        if t % 17 == 16:
            channel = [40 * x for x in channel]
        clean = [b ^ (i == t % 40) for i, b in enumerate(sent)]
        answer = ((None, True), (clean, True), ([1 - b for b in sent], False), (clean, False))[(t // 3 + t * t) % 4]
        rec.at({"config": cfg, "buffer": t})
        step(dec, code, ref, channel, answer, rec, cfg["code"])
        rec.state((cfg, t))
    rec.trace()
    rec.sample({"config": cfg, "buffers": steps, "learnt": [len(d) for d in ref.e.data]})


def recorded(job, rec):
    """a stretch of a recorded flight"""
    cfg, first, steps = job
    n, k = 1300, 1230
    code = CODES[cfg["code"]](n, k)
    dec, ref = build(cfg, code), Ref(cfg, n, k)
    for t, (channel, _, answer) in enumerate(flight.outcomes(steps, n, first)):
        rec.at({"config": cfg, "from": first, "buffer": t})
        step(dec, code, ref, channel, answer[0], rec, cfg["code"])
    rec.trace()
    rec.states_n(steps)
    rec.sample({"config": cfg, "buffers": steps, "structural": len(ref.e.structural(0))})


def flights(code, quick, **extra):
    return [(config(code, window=w, thr=t, center=c, slope=0.35, flip=f, clip=cl, length=1224, training=6, **kw, **extra), first, 40 if quick else 200)
            for w, t, c, f, cl, first, kw in [(50, 0.36, 40, 0.0, 1.5, 0, {}), (20, 0.6, 10, 0.0473, 4.0, 300, {}), (10, 0.36, 10, 0.0, 20.0, 500, {})] +
            [(8 if extra else None, 0.36, 20, 0.0, 2.0, 100, dict(clusters=2, cluster=1)), (8 if extra else 20, 0.36, 5, 0.0, 2.0, 200, dict(clusters=2, cluster=0))]]


def lives(code, quick, **extra):
    cfgs = []
    for window, (cen, slo), flip, clip in itertools.product((None, 5, 50) if not extra else (5, 50), ((40, 0.35), (8, 0.6)), (0.0, 0.0473), (1.5, 20.0)):
        cfgs.append(config(code, window=window, center=cen, slope=slo, flip=flip, clip=clip, length=16, thr=0.88, **extra))
    cfgs += [config(code, window=w, clusters=c, cluster=kind, training=12, length=16, center=8, thr=0.7, flip=0.0473, **extra) for w in ((None, 20) if not extra else (4, 20)) for c in (2, 3, 5) for kind in (0, 1)]
    if not extra:
        cfgs += [config(code, plain=True, window=None, center=40, slope=0.35, clusters=c, cluster=1, training=12, length=16, thr=t) for c in (1, 3) for t in (0.88, 0.6)]
    out = [(c, 200 if quick else 600) for c in cfgs]
    out += [(config(code, steady=True, window=w, center=40, slope=0.1, flip=f, length=16, thr=0.6, clip=5.0, **extra), 560 if quick else 1100) for w, f in ([(None, 0.0), (300, 0.03)] if not extra else [(300, 0.0)])]
    return out


def config(code="soft", **kw):
    c = dict(code=code, clusters=1, cluster=1, training=3, window=None, thr=0.95, clip=1.5, center=2, slope=0.7, flip=0.0, length=3)
    c.update(kw)
    return c


WORDS = [(1.5, -2.0, 0.25, 1.0, -0.75), (-1.25, -0.5, 3.0, -1.0, 2.5), (0.5, 1.0, -1.5, -2.0, -0.125), (-4.0, 0.0625, 0.75, 6.0, 1.25)]
ANSWERS = [(None, True), ((0, 1, 1, 0, 1), True), ((1, 0, 0, 1, 0), False)]


def jobs_for(code, quick, **extra):
    fixed = [[0.9, 0.1], [0.0, 1.0], [0.5, 0.5], [0.3, 0.7], [1.0, 0.0]]
    out = []

    def add(cfg, words, answers, depth):
        for f in range(len(words) * len(answers)):
            out.append((dict(cfg, **extra), (5, 3), words, answers, f, depth))
    frac = 1 if not quick else 2 if code == "soft" else 4  # quick: a balanced fraction of the settings
    for a, b, c, d, e in itertools.product((0, 1), repeat=5):
        if frac > 1 and (a + b + c + d + e) % 2 or frac > 2 and (a + b) % 2:
            continue
        window, thr, flip, (cen, slo), clip = ((2, 3) if extra else (None, 2))[a], (0.85, 0.95)[b], (0.0, 0.06)[c], ((2, 0.7), (3, 2.0))[d], (1.5, 20.0)[e]
        add(config(code, window=window, thr=thr, flip=flip, center=cen, slope=slo, clip=clip), WORDS[:2] if quick else WORDS, ANSWERS, 4)
    for length in (1, 2, 4, 5):
        add(config(code, length=length, window=3), WORDS[:3], ANSWERS[:2] + ANSWERS[2:], 3 if quick else 4)
    strong = [tuple(25 * x for x in w) for w in WORDS]
    add(config(code, window=3 if extra else None, center=8, slope=1.1), WORDS[:3], ANSWERS, 3 if quick else 4)  # a model weaker than the channel
    add(config(code, window=3 if extra else None, flip=0.06), strong[1:], ANSWERS, 3 if quick else 4)
    if extra:
        for cl, kind in ((2, 0), (2, 1), (3, 0)):
            add(config(code, clusters=cl, cluster=kind, training=cl + 1, window=2 if cl == 2 else 1, thr=0.95, center=1), WORDS[:2], ANSWERS[1:], 5 if quick else 7)
        return out
    add(config(code, window=1), WORDS, ANSWERS, 3)
    for clusters in (2,) if quick and code != "soft" else (2, 3):
        add(config(code, clusters=clusters, cluster=0, window=2, thr=0.95), WORDS[:2], ANSWERS[1:], 6 if quick else 7)
        add(config(code, clusters=clusters, cluster=1, training=clusters + 1, center=1), WORDS[:3 if code == 'soft' else 2], ANSWERS[1:] if quick else ANSWERS, 5 if quick else 6)
    add(config(code, fixed=fixed), WORDS, ANSWERS, 3)
    add(config(code, fixed=fixed, length=5, clusters=2, cluster=0, clip=20.0, thr=1.0), WORDS, ANSWERS, 3)
    return out


# with the real code decoder, on a small code
H = np.array([[1, 1, 0, 1, 0, 0], [0, 1, 1, 0, 1, 0], [1, 0, 1, 0, 0, 1]])
INFO = np.array([True] * 3 + [False] * 3)


def real(job, rec):
    first, depth = job
    code_words = [(u[0], u[1], u[2], u[0] ^ u[1], u[1] ^ u[2], u[0] ^ u[2]) for u in itertools.product((0, 1), repeat=3)]
    words = [[(1 - 2 * b) * m * (-1 if i == e else 1) for i, (b, m) in enumerate(zip(code_words[c], (2.0, 1.5, 1.0, 0.5, 1.25, 0.75)))]
             for c in (0, 5) for e in (None, 0, 4)]
    cfg = config(window=3, clip=3.0)
    for rest in itertools.product(range(len(words)), repeat=depth - 1):
        hist = (first,) + rest
        rec.at({"code": "6,3", "history": hist})
        dec = build(cfg, LogSpaDecoder(H, 10, INFO))
        plain, ref = LogSpaDecoder(H, 10, INFO), Ref(cfg, 6, 3)
        for i in hist:
            label, want = ref.ask(words[i])
            out = dec.decode_buffer(np.array(words[i]))
            exp = plain.decode(np.array(want))
            rec.check(same(out[0], exp[0]) and same(out[1], exp[1], 1e-6) and bool(out[2]) == bool(exp[2]), f"estimate {out[0].tolist()}, the code decoder alone gives {exp[0].tolist()}")
            rec.check(not out[2] or not (H @ np.asarray(out[0]) % 2).any(), "success claimed for a word that is no code word")
            ref.told(label, exp[0].tolist(), exp[2])
            rec.check(same(out[6], ref.e.distribution(0)), "distribution learnt differs")
            rec.step()
        rec.trace()
        rec.state(hist)


def run(ctx):
    jobs = jobs_for("soft", ctx.quick)
    ctx.bounds = {"histories": "all of 3-6 (thorough up to 7) buffers, each one of 2-4 words with one of 2-3 answers of the code decoder", "settings": f"{len({str(j[0]) for j in jobs})}",
                  "real code": f"(6,3) code, all histories of {3 if ctx.quick else 4} out of 6 words with up to one error", "life": "200 (600) buffers of 16 bits, 32 settings with windows up to 50"}
    ctx.assumptions = ["information bits come first in the code word", "the code decoder is a function of its input (scripted, and the real one on a small code)"]
    ctx.explore("histories", histories, jobs)
    ctx.explore("life", life, lives("soft", ctx.quick))
    ctx.bounds["recorded"] = "stretches of 40 (200) buffers of a recorded flight, 5 settings"
    ctx.explore("recorded", recorded, flights("soft", ctx.quick))
    ctx.explore("real", real, [(f, 3 if ctx.quick else 4) for f in range(6)])
