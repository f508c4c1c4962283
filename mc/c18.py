"""Entropy aided denoiser: what it adds to each bit is the confidence-weighted log ratio of the windowed history, nothing else."""
import itertools
import math
import numpy as np
from inference.entropy_mle import EMLE
from mc.c14 import long_stream, steady
from mc.core import same

EPS = 2.0 ** -52


def h2(p):
    return 0.0 if p in (0, 1) else -(p * math.log2(p) + (1 - p) * math.log2(1 - p))


class Ref:
    def __init__(self, f, threshold, window, center, slope, hard_out, soft_in):
        self.__dict__.update(f=f, threshold=threshold, window=window, center=center, slope=slope, hard_out=hard_out, soft_in=soft_in)
        self.reset()

    def reset(self):
        self.data = []

    def step(self, obs):
        llr = list(map(float, obs)) if self.soft_in else [(-1) ** int(y) * math.log((1 - self.f) / self.f) for y in obs]
        hard = [int(l < 0) for l in llr]
        n = len(self.data)
        c = 0 if n <= 1 else 1 / (1 + math.exp(-(n - self.center) * self.slope))
        if n and c > 0:
            for i in range(len(llr)):
                p = sum(d[i] for d in self.data) / n
                p = min(max((p - self.f) / (1 - 2 * self.f), 0), 1)
                if h2(p) < self.threshold:
                    llr[i] += c * math.log((1 - p + EPS) / (p + EPS))
        est = [int(l < 0) for l in llr]
        self.data.append(hard)
        if self.window:
            self.data = self.data[-self.window:]
        return (est if self.hard_out else llr), sum(a != b for a, b in zip(hard, est))


def histories(job, rec):
    cfg, words, first, depth = job
    for n in range(depth):
        for rest in itertools.product(list(range(len(words))) + (["reset"] if n <= 2 else []), repeat=n):
            hist = (first,) + rest
            rec.at({"config": cfg, "history": [words[i] if i != "reset" else i for i in hist]})
            e, ref = EMLE(*cfg), Ref(*cfg)
            for i in hist:
                if i == "reset":
                    e.reset()
                    ref.reset()
                    continue
                arr = np.array(words[i], dtype=float if cfg[6] else np.int_)
                keep = arr.copy()
                got, cost = e.denoise_buffer(arr)
                want, wcost = ref.step(words[i])
                rec.check(np.array_equal(arr, keep), "the observation was changed")
                rec.check(same(got, want) and cost == wcost, f"estimate {np.asarray(got).tolist()} cost {cost}, expected {want} cost {wcost}")
                rec.check(e.model_size == len(ref.data), f"model size {e.model_size}, {len(ref.data)} buffers in the window")
                rec.step()
            if n == depth - 1:
                seq = np.array([words[i] for i in hist], dtype=float if cfg[6] else np.int_)
                e2, ref2 = EMLE(*cfg), Ref(*cfg)
                ests, costs = e2.denoise_sequence(seq)
                w = [ref2.step(words[i]) for i in hist]
                rec.check(same(ests, [x[0] for x in w]) and list(costs) == [x[1] for x in w], "denoising a sequence differs from buffer by buffer")
            rec.trace()
            rec.state((cfg, hist))
    rec.sample({"config": cfg, "history": [words[i] if i != "reset" else i for i in hist], "estimate": np.asarray(got).tolist()})


def defaults(job, rec):
    """a denoiser given only the channel: soft values in and out, threshold 0.5, all history, confidence centred on 40 buffers"""
    f, period = job
    e, ref = EMLE(f), Ref(f, 0.5, 0, 40, 0.35, False, True)
    for k in range(48):
        obs = [1.5, -2.25 if k % period else 0.4, 0.3 if k % (period + 5) == 1 else -4.0, 2.0 - k % period]
        rec.at({"channel": f, "period": period, "buffer": k})
        got, cost = e.denoise_buffer(np.array(obs))
        want, wcost = ref.step(obs)
        rec.check(same(got, want) and cost == wcost, f"estimate {np.asarray(got).tolist()} cost {cost}, expected {want} cost {wcost}")
        rec.step()
        rec.state(("defaults", job, k))
    rec.trace()


def long_steady(cfg, rec):
    """560 buffers in which little changes, all remembered"""
    e, ref = EMLE(*cfg), Ref(*cfg)
    for t, w in enumerate(steady(2, 12, 560)):
        obs = [(1 - 2 * b) * ((3 * i + 5 * t) % 11 + 1) / 4 for i, b in enumerate(w)] if cfg[6] else list(w)
        rec.at({"config": cfg, "buffer": t})
        got, cost = e.denoise_buffer(np.array(obs))
        want, wcost = ref.step(obs)
        rec.check(same(got, want) and cost == wcost, f"estimate {np.asarray(got).tolist()} cost {cost}, expected {want} cost {wcost}")
        rec.step()
        rec.state((cfg, t, "steady"))
    rec.trace()


def life(cfg, rec):
    """400 buffers of 12 bits, now and then a reset"""
    e, ref, e2, ref2 = EMLE(*cfg), Ref(*cfg), EMLE(*cfg), Ref(*cfg)
    stream = []
    for t, w in enumerate(long_stream(2, 12, 400)):
        obs = [(1 - 2 * b) * ((3 * i + 5 * t) % 11 + 1) / 4 for i, b in enumerate(w)] if cfg[6] else list(w)
        stream.append(obs)
        rec.at({"config": cfg, "buffer": t})
        if t in (130, 300):
            e.reset()
            ref.reset()
        got, cost = e.denoise_buffer(np.array(obs))
        want, wcost = ref.step(obs)
        rec.check(same(got, want) and cost == wcost, f"estimate {np.asarray(got).tolist()} cost {cost}, expected {want} cost {wcost}")
        rec.check(e.model_size == len(ref.data), f"model size {e.model_size}, {len(ref.data)} buffers in the window")
        rec.step()
        rec.state((cfg, t))
    for a, b in ((0, 150), (150, 151), (151, 400)):
        rec.at({"config": cfg, "buffers": [a, b]})
        ests, costs = e2.denoise_sequence(np.array(stream[a:b]))
        w = [ref2.step(o) for o in stream[a:b]]
        rec.check(same(ests, [x[0] for x in w]) and list(costs) == [x[1] for x in w], "denoising a sequence differs from buffer by buffer")
    rec.trace()


def run(ctx):
    depth = 4 if ctx.quick else 6
    soft = [(1.5, -2.25), (-0.7, 0.3), (4.0, 0.0), (-3.1, -0.2)]  # including an erasure
    hard = list(itertools.product((0, 1), repeat=2))
    jobs = []
    for f, thr, win, (cen, slo), out in itertools.product((0.05, 0.3), (0.4, 0.95), (0, 1, 2, 3), ((2, 0.35), (3, 2.0)), (False, True)):
        for soft_in in (True, False):
            cfg = (f, thr, win, cen, slo, out, soft_in)
            jobs += [(cfg, soft if soft_in else hard, k, depth) for k in range(4)]
    ctx.bounds = {"histories": f"all of up to {depth} buffers out of 4, with resets in histories up to 3", "settings": "128 combinations of channel, threshold, window, confidence, input and output kind",
                  "life": "400 buffers of 12 bits with resets, 48 settings with windows 0, 5, 50, 120"}
    ctx.explore("histories", histories, jobs)
    ctx.explore("defaults", defaults, [(f, p) for f in (0.012, 0.047, 0.19) for p in range(2, 12)])
    ctx.explore("life", life, [(f, thr, win, cen, slo, out, soft_in) for f, thr, cen, slo in ((0.0473, 0.87, 40, 0.35), (0.0073, 0.93, 5, 0.1), (0.11, 0.7, 20, 0.2)) for win in (0, 5, 50, 120) for out in (False, True) for soft_in in (True, False)])
    ctx.bounds["steady"] = "560 buffers in which little changes, window none/300"
    ctx.explore("steady", long_steady, [(f, 0.8, win, 40, 0.05, out, soft_in) for f in (0.01, 0.0473) for win in (0, 300) for out, soft_in in ((False, True), (False, False), (True, True))])
