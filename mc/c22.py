"""Field model based decoder: which bits are strengthened, weakened or forced, what is learnt, and what is reported."""
import itertools
import numpy as np
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
from inference.statistical_models import BufferModel
from mc import flight as real_flight, wire
from mc.bufmodel import RefModel, layout
from mc.c10 import want as wire_bits
from mc.core import same, exact, optional
from mc.stub import SoftCode, Labels, confidence


def pack(bits):
    bits = list(bits) + [0] * (-len(bits) % 8)
    return bytes(int("".join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8))


def found_bits(info):
    """which of the bits belong to complete messages"""
    parts, structure = wire.segment(pack(info))
    return [p != "U" for p in parts for _ in range(8)], structure


class Ref:
    """prediction and learning common to the decoders that use field models"""

    def __init__(self, cfg, n, k):
        self.cfg, self.n, self.k = cfg, n, k
        self.labels = Labels(cfg["clusters"], cfg["cluster"], cfg["training"])
        self.structures = list(cfg.get("structures") or [None] * cfg["clusters"])
        self.learning = cfg.get("fixed") is None
        self.model = RefModel(cfg["window"] if self.learning else None)
        for buf, st in cfg.get("fixed") or ():
            self.model.add_buffer(buf, st)

    def label(self, channel):
        return self.labels.of([int(x < 0) for x in channel][:self.cfg["length"]])

    def judge(self, obs, label):
        """fields, probability and deviation per bit, bits of the model mean, factors"""
        st, n = self.structures[label], self.n
        hard = [int(x < 0) for x in obs]
        fields, prob, std = self.model.predict(pack(hard)[:n // 8], st)
        mean = [0] * n
        for name, typ, b, w in layout(st):
            if name in self.model.fields:
                m = self.model.fields[name].fit()[0]
                mean[b:b + w] = [0] * w if m != m else wire_bits(m if typ == "float" else round(m), typ)
        c = confidence(self.model.size, self.cfg["center"], self.cfg["slope"]) if self.learning else 1.0
        pad = [float("nan")] * (n - len(prob))
        return hard, fields, prob + pad, std + pad, mean, (self.cfg["valid"] - 1) * c + 1, (self.cfg["invalid"] - 1) * c + 1

    def scale(self, out, hard, prob, vf, bf, label):
        for i, p in enumerate(prob):
            if p > 1 - self.cfg["vthr"]:
                out[i] *= vf
            if p < self.cfg["bthr"]:
                out[i] *= bf

    def forced(self, prob, std):
        return [i for i, (p, s) in enumerate(zip(prob, std)) if p <= 0 and s == 0]

    def predict(self, obs, label):
        if self.structures[label] is None:
            return {"llr": list(obs), "good": [], "bad": [], "segmented": None, "forced": [], "mean": [], "fields": 0}
        hard, fields, prob, std, mean, vf, bf = self.judge(obs, label)
        out = list(obs)
        self.scale(out, hard, prob, vf, bf, label)
        forced = self.forced(prob, std)
        top = max(abs(x) for x in obs)
        for i in forced:
            out[i] = (-1) ** mean[i] * top * max(vf, 1)
        seg, st = found_bits(hard[:self.k])
        if st:
            for i, s in enumerate(seg):
                if s:
                    out[i] = obs[i] * 2 * vf
        else:
            seg, st = found_bits([int(x < 0) for x in out[:self.k]])
            for i, s in enumerate(seg):
                if s:
                    out[i] *= 2
        return {"llr": out, "good": [i for i, f in enumerate(fields) if f[1] > 1 - self.cfg["vthr"]], "bad": [i for i, f in enumerate(fields) if f[1] < self.cfg["bthr"]],
                "segmented": (list(seg) + [False] * self.n)[:self.n], "forced": forced, "mean": [mean[i] for i in forced], "fields": len(fields)}

    def learn(self, label, estimate, success, channel):
        if label < 0 or not self.learning:
            return
        bits = estimate if success else [int(x < 0) for x in channel]
        if success and self.structures[label] is None:
            self.structures[label] = wire.segment(pack(estimate[:self.k]))[1]
        if self.structures[label] is not None:
            self.model.add_buffer(pack(bits)[:self.n // 8], self.structures[label])


def confusion(pred, actual, negative):
    pred, actual = set(pred), set(actual)
    fp = len(pred - actual)
    return [len(pred & actual), fp, negative - fp, len(actual - pred), len(actual), negative]


def analysis(ref, pre, structure, channel, errors):
    n = ref.n
    if structure is None:
        return {}, {}
    owner = {}
    for k, (_, _, b, w) in enumerate(layout(structure)):
        owner.update({i: k for i in range(b, b + w)})
    damaged = {owner[e] for e in errors if e in owner}
    cls = {} if not damaged else {
        "n_fields_in_buffer": pre["fields"], "n_damaged_fields_in_buffer": len(damaged),
        "good_fields_performance": confusion(pre["good"], set(range(pre["fields"])) - damaged, len(damaged)),
        "bad_fields_performance": confusion(pre["bad"], damaged, pre["fields"] - len(damaged))}
    rx = [int(x < 0) for x in channel]
    tx = [b ^ (i in errors) for i, b in enumerate(rx)]
    flipped = [i for i, m in zip(pre["forced"], pre["mean"]) if m != rx[i]]
    fc = confusion(flipped, errors, n - len(errors))
    wrong = sum(tx[i] != m for i, m in zip(pre["forced"], pre["mean"]))
    return cls, {"bits_confusion_matrix": confusion(pre["forced"], errors, n - len(errors)), "flipping_confusion_matrix": fc,
                 "forcing_quality": [len(errors), len(pre["forced"]), len(flipped), fc[0], fc[1], wrong / len(pre["forced"]) if pre["forced"] else 0]}


def same_dict(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


def fixed_model(cfg):
    if cfg.get("fixed") is None:
        return None
    m = BufferModel()
    for buf, st in cfg["fixed"]:
        m.add_buffer(buf, st)
    return m


def build(cfg, code):
    d = MavlinkRectifyingDecoder(code, cfg["length"], cfg["vthr"], cfg["bthr"], cfg["clusters"], cfg["valid"], cfg["invalid"], **optional(
        dict(cluster=True, window_length=None, data_model=None, conf_center=0, conf_slope=0, debug=False, segmentation_iterations=1),
        dict(classifier_training_size=cfg["training"], cluster=cfg["cluster"], window_length=cfg["window"], data_model=fixed_model(cfg), conf_center=cfg["center"],
             conf_slope=cfg["slope"], debug=cfg.get("debug", False), segmentation_iterations=cfg.get("rounds", 1))))
    if cfg.get("structures"):
        d.set_buffer_structures(list(cfg["structures"]))
    return d


def same_model(model, ref, rec):
    rec.check(model.model_size == ref.size, f"the model holds {model.model_size} buffers, expected {ref.size}")
    rec.check(sorted(model.fields_names()) == sorted(ref.fields), "fields learnt differ")
    for name, r in ref.fields.items():
        rec.check(exact(model[name].samples, r.samples), f"samples learnt for {name}: {model[name].samples}, expected {r.samples}")


def step(dec, code, ref, word, answers, rec):
    channel, errors = word
    code.expect(*answers)
    arr, err = np.array(channel, dtype=float), np.array(errors, dtype=np.int_)
    label = ref.label(channel)
    structure = ref.structures[label] if label >= 0 else None
    out = dec.decode_buffer(arr, err)
    rec.step()
    rec.check(arr.tolist() == list(channel) and err.tolist() == list(errors), "the inputs were changed")
    rounds = ref.cfg.get("rounds", 1) if label >= 0 else 1
    obs, pre, its = list(channel), None, 0
    for r in range(rounds):
        rec.check(r < len(code.asked), f"the code decoder ran {len(code.asked)} times, expected more")
        pre = ref.predict(obs, label) if label >= 0 else {"llr": obs}
        rec.check(same(code.asked[r], pre["llr"]), f"round {r}: the code decoder was given other values at bits "
                  f"{[i for i, (a, b) in enumerate(zip(code.asked[r], pre['llr'])) if not same(a, b)]}: {[float(a) for a, b in zip(code.asked[r], pre['llr']) if not same(a, b)][:6]}, "
                  f"expected {[b for a, b in zip(code.asked[r], pre['llr']) if not same(a, b)][:6]}")
        its += int(code.given[r][3])
        obs = code.given[r][1].tolist()
        if code.given[r][2]:
            break
    rec.check(len(code.asked) == r + 1, f"the code decoder ran {len(code.asked)} times, expected {r + 1}")
    g = code.given[r]
    rec.check(same(out[0], g[0]) and same(out[1], g[1]) and bool(out[2]) == bool(g[2]) and same(out[4], g[4]) and same(out[5], g[5]), "what the code decoder answered is not what is returned")
    rec.check(out[3] == its, f"{out[3]} iterations reported, {its} made")
    rec.check(out[6] == label, f"label {out[6]}, expected {label}")
    if label < 0 or pre["segmented"] is None:
        rec.check(np.asarray(out[7]).size == 0 and not len(out[8]) and not len(out[9]), "fields judged without a model")
    else:
        rec.check(np.asarray(out[7]).tolist() == pre["segmented"], "segmented bits differ")
        rec.check(list(out[8]) == pre["good"] and list(out[9]) == pre["bad"], f"good fields {out[8]} bad fields {out[9]}, expected {pre['good']} {pre['bad']}")
    if label >= 0 and ref.cfg.get("debug"):
        cls, frc = analysis(ref, pre, structure, channel, set(errors))
        rec.check(same_dict(out[10], cls), f"field analysis {out[10]}, expected {cls}")
        rec.check(same_dict(out[11], frc), f"forcing analysis {out[11]}, expected {frc}")
    else:
        rec.check(not out[10] and not out[11], "analysis without debugging")
    ref.learn(label, g[0].tolist(), answers[r][1], channel)
    same_model(dec.model, ref.model, rec)


MAG = [(3 * i % 7 + 2) / 4 for i in range(200)]


def word(buf, n, flips=(), parity=0):
    bits = (wire.bits_of(buf) + [(parity >> i) & 1 for i in range(n)])[:n]
    return [(1 - 2 * (b ^ (i in flips))) * MAG[(i + parity) % 200] for i, b in enumerate(bits)], sorted(f for f in flips if f < n)


def bits(buf, n):
    return (wire.bits_of(buf) + [1, 0] * n)[:n]


def alphabet(n):
    f = [wire.frame(245, p, s, y, 3) for p, s, y in ((b"\x0a\x14", 0, 1), (b"\x0c\x14", 1, 1), (b"\x0b\xc8", 2, 1), (b"\x0a\x14", 9, 2))]
    pad = b"\x55"
    words = [word(f[0] + pad, n), word(f[1] + pad, n, (3,)), word(f[1] + pad, n, (49, 57, 90), 5), word(f[2] + pad, n, (12, 70), 2), word(f[3] + pad, n, (44, 1), 1), word(pad + f[2], n, (), 3)]
    sent = [bits(x + pad, n) for x in f]
    return words, sent


def run_history(build, ref_class, cfg, nk, hist, rec, stepper):
    code = SoftCode(*nk)
    dec, ref = build(cfg, code), ref_class(cfg, *nk)
    for w, a in hist:
        stepper(dec, code, ref, w, a, rec)
    return ref


def histories(job, rec):
    cfg, nk, ops, first, depth = job
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        rec.at({"config": cfg, "history (operations)": (first,) + rest})
        ref = run_history(build, Ref, cfg, nk, [ops[i] for i in (first,) + rest], rec, step)
        rec.trace()
        rec.states_n(1)
    rec.sample({"config": cfg, "history (operations)": (first,) + rest, "fields learnt": len(ref.model.fields), "model size": ref.model.size})


def config(**kw):
    c = dict(clusters=1, cluster=True, training=3, window=None, vthr=0.3, bthr=0.2, valid=2.0, invalid=0.5, center=2, slope=0.7, length=80)
    c.update(kw)
    return c


def operations(n, sel, rounds=1):
    words, sent = alphabet(n)
    wrong = [1 - b for b in sent[0]]
    ops = {"clean": (words[0], [(sent[0], True)]), "one": (words[1], [(sent[1], True)]), "lost": (words[2], [(wrong, False)] * rounds), "other": (words[3], [(sent[2], True)]),
           "lost2": (words[4], [(None, False)] * rounds), "shifted": (words[5], [(None, False)] * rounds), "late": (words[4], [(None, False)] * (rounds - 1) + [(sent[3], True)]),
           "miss": (words[0], [(wrong, False)] * rounds), "fixed": (words[3], [(sent[0], True)]), "moved": (words[5], [(bits(b"\x55" + pack(sent[2])[:10], n), True)]), "void": (words[3], [(wrong, True)])}
    kin = [wire.frame(m, b"\x0a\x14", 4, 1, 3) + b"\x55" for m in (43, 121)]
    ops["kin"], ops["kin2"] = [(word(x, n, fl, 6), [(bits(x, n), True)]) for x, fl in zip(kin, ((), (9,)))]
    return [ops[s] for s in sel]


def settings(q):
    out = []

    def add(cfg, nk, sel, depth, rounds=1):
        ops = operations(nk[0], sel, rounds)
        out.extend((cfg, nk, ops, f, depth) for f in range(len(ops)))
    every = ["clean", "one", "lost", "other", "lost2", "shifted", "miss", "fixed"]
    add(config(), (96, 88), every, 3 if q else 4)
    add(config(debug=True, window=2), (96, 88), every, 3 if q else 4)
    add(config(window=2, vthr=0.6, bthr=0.5, valid=0.8, invalid=1.5), (96, 88), every[:5], 4)
    add(config(window=1), (88, 80), every[:5], 3)
    add(config(center=0, slope=0), (96, 84), every[:6], 3)
    add(config(center=0), (96, 88), every[:5], 3)
    add(config(rounds=2, debug=True), (96, 88), ["clean", "one", "lost", "late", "lost2"], 3 if q else 4, 2)
    add(config(rounds=3, window=3, clusters=2, cluster=False), (96, 88), ["clean", "late", "lost"], 4 if q else 6, 3)
    add(config(clusters=2, cluster=False, debug=True), (96, 88), ["clean", "one", "lost", "miss"], 4 if q else 6)
    add(config(clusters=2, training=3, length=72, debug=True), (96, 88), ["clean", "other", "lost", "miss"], 5 if q else 6)
    f = alphabet(96)[1]
    st = {0: 245}
    fixed = [(pack(f[i])[:12], st) for i in (0, 0, 1)]
    add(config(fixed=fixed, structures=[st], debug=True), (96, 88), every, 2 if q else 3)
    add(config(fixed=fixed[:1], structures=[{0: 245}, {1: 245}], clusters=2, cluster=False, invalid=0.0), (96, 88), every, 2 if q else 3)
    add(config(structures=[st]), (96, 88), every + ["void"], 3)
    add(config(debug=True), (96, 88), ["clean", "moved", "lost", "shifted"], 4 if q else 5)
    add(config(clusters=2, cluster=False, debug=True), (96, 88), ["clean", "moved", "kin", "lost"], 4 if q else 6)
    add(config(clusters=3, cluster=False, window=4), (96, 88), ["clean", "kin", "kin2"], 5 if q else 7)
    add(config(clusters=2, training=3, debug=True, window=3), (96, 88), ["clean", "moved", "kin", "lost"], 5 if q else 6)
    return out


def flight(steps, n, kinds=1, rounds=1):
    """a recorded flight: three messages per buffer with counters, constants, reals and slow changes; channel errors everywhere, most buffers recovered"""
    out = []
    for t in range(steps):
        pos = [1000 + 20 * t, 325000000 + 7 * t, -350000000, 48.5 - 0.25 * (t % 20), 12.0, -0.125 * (t % 3), 0.25 + 0.001 * (t % 9), 1.5, 0.0, 2.0 ** -10, -0.5 + 0.01 * (t % 4)]
        bat = [70000 + 3 * t, -1, 301 - t % 2] + [4100 - t // 8, 4093, 4101 + t % 3] + [65535] * 7 + [-250 + t % 5, 0, 1, 3, 99 - t // 10]
        st = [2 + (t > steps // 2), 1]
        frames = [(33, pos), (147, bat), (245, st)]
        if kinds > 1 and t % kinds:
            frames = [frames[2], frames[0]]
        buf = b"".join(wire.frame(m, wire.pack_payload(m, v), (3 * t + i) % 256, 1, 190 if m == 245 else 1) for i, (m, v) in enumerate(frames))
        sent = bits(buf + b"\x55\xa3", n)
        flips = sorted({(53 * t + 97 * i * i) % n for i in range(t % 5)} | ({(8 * t) % 840 + 1} if t % 3 == 1 else set()))
        channel = [(1 - 2 * (b ^ (i in flips))) * MAG[(i + t) % 200] for i, b in enumerate(sent)]
        if t % 4 == 3:
            answers = [(None, False)] * rounds
        elif t % 7 == 5:
            answers = [([1 - b for b in sent], False)] * rounds
        else:
            answers = [(None, False)] * (t % rounds) + [(sent, True)]
        out.append(((channel, flips), answers))
    return out


def life(job, rec):
    cfg, steps, kinds = job
    rec.at({"config": {k: v for k, v in cfg.items() if k != "fixed"}, "buffers": steps})
    hist = flight(steps, 880, kinds, cfg.get("rounds", 1))
    ref = run_history(build, Ref, cfg, (880, 864), hist, rec, step)
    rec.trace()
    rec.states_n(steps)
    rec.sample({"buffers": steps, "fields learnt": len(ref.model.fields), "model size": ref.model.size})


def steady_history(steps, rounds=1):
    """hundreds of small frames in which little changes"""
    out = []
    for t in range(steps):
        f = wire.frame(245, bytes((250 + (t % 50 == 49), 3)), t % 256, 255, 250) + b"\x55"
        flips = () if t % 3 else ((t * 7) % 96, (t * t) % 96)
        out.append((word(f, 96, flips, t % 9), [(bits(f, 96), True)] if t % 11 else [(None, False)] * rounds))
    return out


def steady(job, rec, make=None, ref_class=None, stepper=None):
    cfg, steps = job
    rec.at({"config": cfg, "buffers": steps})
    ref = run_history(make or build, ref_class or Ref, cfg, (96, 88), steady_history(steps, cfg.get("rounds", 1)), rec, stepper or step)
    rec.trace()
    rec.states_n(steps)
    rec.sample({"buffers": steps, "model size": ref.model.size})


def recorded(job, rec, make=None, ref_class=None, stepper=None):
    """a stretch of a recorded flight"""
    cfg, first, steps = job
    rec.at({"config": {k: v for k, v in cfg.items() if k != "fixed"}, "from": first, "buffers": steps})
    hist = [((c, bad), a) for c, bad, a in real_flight.outcomes(steps, 1296, first, cfg.get("rounds", 1))]
    ref = run_history(make or build, ref_class or Ref, cfg, (1296, 1224), hist, rec, stepper or step)
    rec.trace()
    rec.states_n(steps)
    rec.sample({"from": first, "buffers": steps, "model size": ref.model.size})


def flights(q):
    base = dict(length=1224, center=20, slope=0.35)
    learnt = [(b, real_flight.STRUCTURE) for b in real_flight.BUFFERS[300:340]]
    return [(config(**base, **kw), first, 30 if q else 150) for first, kw in [
        (0, dict(vthr=0.1, bthr=0.01)), (300, dict(window=10, debug=True)), (500, dict(window=25, rounds=2, debug=True, vthr=0.05)), (100, dict(clusters=2, training=6)),
        (310, dict(fixed=learnt, structures=[real_flight.STRUCTURE], debug=True, bthr=0.001))]]


FLIGHT = {0: 33, 52: 147, 96: 245}


def flight_buffers(n):
    return [(pack(bits(pack([int(x < 0) ^ (i in flips) for i, x in enumerate(c)]), 880))[:110], FLIGHT) for (c, flips), _ in flight(n, 880)]


def lives(q):
    steps = 60 if q else 250
    base = dict(length=848, center=20, slope=0.35)
    return [(config(**base, **kw), steps, k) for kw, k in [
        (dict(), 1), (dict(window=20, debug=True), 1), (dict(window=5, vthr=0.6, bthr=0.5), 1), (dict(window=50, rounds=3, debug=True, vthr=0.05, bthr=0.01), 1), (dict(clusters=2, training=12, window=30), 2),
        (dict(clusters=3, training=8, debug=True), 2), (dict(clusters=2, cluster=False, debug=True), 2), (dict(clusters=3, cluster=False), 3), (dict(fixed=flight_buffers(30), structures=[FLIGHT], debug=True), 1),
        (dict(fixed=flight_buffers(3), structures=[FLIGHT], rounds=2), 1), (dict(structures=[FLIGHT], window=40), 1)]]


def misuse(_, rec):
    for n in (1, 2, 3):
        d = build(config(clusters=n, cluster=False), SoftCode(96, 88))
        for m in range(5):
            rec.at({"clusters": n, "structures": m})
            try:
                d.set_buffer_structures([{0: 245}] * m)
                rec.check(m == n, f"{m} structures accepted for {n} clusters")
            except ValueError:
                rec.check(m != n, f"{m} structures refused for {n} clusters")
            rec.step()
    rec.trace()
    rec.states_n(15)


def run(ctx):
    jobs = settings(ctx.quick)
    ctx.bounds = {"histories": "all of 2-5 (thorough up to 6) buffers, each one of 3-8 combinations of sent frame, channel errors and code decoder answer", "settings": f"{len({str(j[:2]) for j in jobs})}"}
    ctx.assumptions = ["information bits come first in the code word", "successfully decoded buffers contain a message", "thresholds are not met exactly"]
    ctx.explore("histories", histories, jobs)
    ctx.bounds["life"] = "a flight of 60 (250) buffers of three messages with reals, counters and constants, channel errors and lost buffers, 11 settings"
    ctx.explore("life", life, lives(ctx.quick))
    ctx.bounds["recorded"] = "stretches of 30 (150) buffers of a recorded flight, 5 settings"
    ctx.explore("recorded", recorded, flights(ctx.quick))
    ctx.bounds["steady"] = "560 (1100) small buffers in which little changes, window none/300"
    ctx.explore("steady", steady, [(config(window=w, center=20, slope=0.3), 560 if ctx.quick else 1100) for w in (None, 300)])
    ctx.explore("misuse", misuse, [0])
