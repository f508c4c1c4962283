"""Decoders combining field models and bit entropies: both predictions enter, both models learn, each with its own rule."""
import numpy as np
from decoders.combined_decoder import CombinedDecoder
from decoders.combined_unified_decoder import CombinedUnifiedDecoder
from mc import c22
from mc.core import same, optional
from mc.stub import Entropy


class Ref(c22.Ref):
    def __init__(self, cfg, n, k):
        super().__init__(cfg, n, k)
        self.e = Entropy(cfg["clusters"], cfg["length"], cfg["thr"], cfg["window"], cfg["center"], cfg["slope"], cfg["flip"])

    def scale(self, out, hard, prob, vf, bf, label):
        if not self.cfg["unified"]:
            return super().scale(out, hard, prob, vf, bf, label)
        if self.e.size(label) <= self.cfg["center"]:
            return
        p1 = self.e.p1(label)
        for i in self.e.structural(label):
            if prob[i] > 1 - self.cfg["vthr"]:
                out[i] *= vf
            if prob[i] < self.cfg["bthr"] and (p1[i] > 0.5) != bool(hard[i]):
                out[i] *= bf * (-1 if self.cfg["invert"] else 1)

    def forced(self, prob, std):
        if self.cfg["unified"] and not self.learning:
            return [i for i, s in enumerate(std) if s == 0]
        return super().forced(prob, std)

    def ask(self, channel):
        label = self.label(channel)
        if label < 0:
            return label, list(channel)
        out = self.predict(channel, label)["llr"]
        top = self.cfg["clip"] * max(abs(x) for x in channel)
        return label, [a + min(max(b, -top), top) for a, b in zip(out, self.e.llr(label, self.n))]

    def told(self, label, estimate, success, channel):
        self.learn(label, estimate, success, channel)
        if label >= 0:
            self.e.learn(label, estimate if success else [int(x < 0) for x in channel])


def build(cfg, code):
    cls = CombinedUnifiedDecoder if cfg["unified"] else CombinedDecoder
    d = cls(code, cfg["length"], cfg["vthr"], cfg["bthr"], cfg["clusters"], cfg["valid"], cfg["invalid"], cfg["thr"], cfg["clip"], **optional(
        dict(cluster=True, window_length=None, data_model=None, conf_center=0, conf_slope=0, debug=False, bit_flip=0.0),
        dict(classifier_training_size=cfg["training"], cluster=cfg["cluster"], window_length=cfg["window"], data_model=c22.fixed_model(cfg), conf_center=cfg["center"],
             conf_slope=cfg["slope"], debug=cfg.get("debug", False), bit_flip=cfg["flip"], **({"flip": True} if cfg["invert"] else {}))))
    if cfg.get("structures"):
        d.set_buffer_structures(list(cfg["structures"]))
    return d


def step(dec, code, ref, word, answers, rec):
    channel, errors = word
    code.expect(*answers)
    arr, err = np.array(channel, dtype=float), np.array(errors, dtype=np.int_)
    label, want = ref.ask(channel)
    out = dec.decode_buffer(arr, err)
    rec.step()
    rec.check(arr.tolist() == list(channel) and err.tolist() == list(errors), "the inputs were changed")
    rec.check(len(code.asked) == 1, f"the code decoder ran {len(code.asked)} times")
    diff = [(i, float(a), b) for i, (a, b) in enumerate(zip(code.asked[0], want)) if not same(a, b)]
    rec.check(not diff, f"the code decoder was given other values (bit, given, expected): {diff[:6]}")
    g = code.given[0]
    rec.check(same(out[0], g[0]) and same(out[1], g[1]) and bool(out[2]) == bool(g[2]) and out[3] == g[3], "what the code decoder answered is not what is returned")
    rec.check(out[4] == label, f"label {out[4]}, expected {label}")
    ref.told(label, g[0].tolist(), answers[0][1], channel)
    c22.same_model(dec.model, ref.model, rec)


def histories(job, rec):
    import itertools
    cfg, nk, ops, first, depth = job
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        rec.at({"config": cfg, "history (operations)": (first,) + rest})
        ref = c22.run_history(build, Ref, cfg, nk, [ops[i] for i in (first,) + rest], rec, step)
        rec.trace()
        rec.states_n(1)
    rec.sample({"config": cfg, "history (operations)": (first,) + rest, "entropy model sizes": [len(d) for d in ref.e.data], "field model size": ref.model.size})


def life(job, rec):
    cfg, steps, kinds = job
    rec.at({"config": {k: v for k, v in cfg.items() if k != "fixed"}, "buffers": steps})
    ref = c22.run_history(build, Ref, cfg, (880, 864), c22.flight(steps, 880, kinds), rec, step)
    rec.trace()
    rec.states_n(steps)
    rec.sample({"buffers": steps, "entropy model sizes": [len(d) for d in ref.e.data], "field model size": ref.model.size})


def recorded(job, rec):
    c22.recorded(job, rec, build, Ref, step)


def steady(job, rec):
    c22.steady(job, rec, build, Ref, step)


def run(ctx):
    q, jobs = ctx.quick, []

    def add(nk, sel, depth, **kw):
        cfg = c22.config(thr=0.95, clip=1.5, flip=0.0, invert=False, unified=False)
        cfg.update(kw)
        ops = c22.operations(nk[0], sel)
        jobs.extend((cfg, nk, ops, f, depth) for f in range(len(ops)))
    every = ["clean", "one", "lost", "other", "lost2", "miss", "fixed", "shifted"]
    f = c22.alphabet(96)[1]
    fixed = [(c22.pack(f[i])[:12], {0: 245}) for i in (0, 0, 1)]
    for unified in (False, True):
        kw = {"unified": unified}
        add((96, 88), every[:6 if q else 8], 3 if q else 4, **kw)
        add((96, 88), every[:4], 4 if q else 5, window=2, flip=0.05, thr=0.85, clip=20.0, center=1, debug=True, **kw)
        add((96, 88), every[:5], 3, length=88, window=3, center=1, **kw)
        add((88, 80), every[:5], 3, length=24, center=1, **kw)
        add((96, 88), every[:5], 3 if q else 4, center=0, slope=0, **kw)
        add((96, 88), every[:4], 3 if q else 4, center=0, **kw)
        add((96, 88), ["clean", "one", "lost"], 5 if q else 6, clusters=2, cluster=False, center=1, **kw)
        add((96, 88), ["clean", "other", "lost"], 5 if q else 6, clusters=2, training=3, length=72, center=1, debug=True, **kw)
        add((96, 88), every, 2 if q else 3, fixed=fixed, structures=[{0: 245}], **kw)
        add((96, 88), every[:4], 3 if q else 4, fixed=fixed, center=1, **kw)  # a model, but no structure it applies to
        add((96, 88), ["clean", "moved", "lost", "shifted"], 3 if q else 5, center=1, **kw)
        add((96, 88), ["clean", "moved", "kin", "lost"], 4 if q else 5, clusters=2, cluster=False, center=1, **kw)
        add((96, 88), ["clean", "moved", "kin"], 5 if q else 6, clusters=2, training=3, center=1, **kw)
        add((96, 88), every[:4], 3 if q else 4, fixed=fixed, structures=[{0: 245}], center=1, window=2, **kw)
    add((96, 88), every[:5], 4, unified=True, invert=True, center=1, slope=2.0, invalid=0.75)
    add((96, 88), every[:4], 3, unified=True, invert=True, center=1, fixed=fixed[1:], structures=[{0: 245}])
    ctx.bounds = {"histories": "all of 2-5 (thorough up to 6) buffers, each one of 3-8 combinations of sent frame, channel errors and code decoder answer", "settings": f"{len({str(j[:2]) for j in jobs})}, both decoders"}
    ctx.assumptions = ["information bits come first in the code word", "successfully decoded buffers contain a message", "thresholds are not met exactly"]
    ctx.explore("histories", histories, jobs)
    ctx.bounds["life"] = "a flight of 60 (250) buffers of three messages with reals, counters and constants, channel errors and lost buffers, 11 settings of both decoders"
    more = dict(thr=0.36, clip=1.5, flip=0.0473, invert=False)
    ctx.explore("life", life, [({**c, **more, **kw}, steps, kinds) for c, steps, kinds in c22.lives(q) if "rounds" not in c
                               for kw in [dict(unified=False), dict(unified=True), dict(unified=True, invert=True, flip=0.0, clip=20.0)][:3 if c["clusters"] == 1 else 2]])
    ctx.bounds["recorded"] = "stretches of 30 (150) buffers of a recorded flight, 4 settings of both decoders"
    ctx.explore("recorded", recorded, [({**c, **more, "unified": u}, first, steps) for c, first, steps in c22.flights(q) if "rounds" not in c for u in (False, True)])
    ctx.bounds["steady"] = "560 (1100) small buffers in which little changes, window none/300"
    ctx.explore("steady", steady, [({**c22.config(window=w, center=20, slope=0.3), **more, "unified": u, "clip": 5.0}, 560 if q else 1100) for w in (None, 300) for u in (False, True)])
