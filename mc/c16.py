"""Online denoiser: every estimate is the minimiser of the estimated expected loss given the past of the stream."""
import itertools
import numpy as np
from inference.dude import OnlineDude
from mc.core import same, debruijn

CH = {"bsc10": [[0.9, 0.1], [0.1, 0.9]], "bsc30": [[0.7, 0.3], [0.3, 0.7]], "asym": [[0.8, 0.2], [0.05, 0.95]]}
LOSS = {"ham": [[0, 1], [1, 0]], "asym": [[0, 3], [1, 0]], "gain": [[0.5, 2], [1, 0.25]]}
CH3 = [[0.8, 0.1, 0.1], [0.05, 0.9, 0.05], [0.2, 0.2, 0.6]]
LOSS3 = [[0, 1, 2], [1, 0, 1], [2, 1, 0]]


def inv(m):
    return np.linalg.solve(np.array(m, dtype=float).T, np.eye(len(m))).T


class Ref:
    """the estimate of each sample, from the samples so far only"""

    def __init__(self, ch, loss, k, hard):
        self.ch, self.inv, self.loss, self.k, self.hard = np.array(ch), inv(ch), np.array(loss, dtype=float), k, hard
        self.reset()

    def reset(self):
        self.ctx, self.counts = (), {}

    def start(self, ctx):
        self.ctx = tuple(ctx)

    def step(self, z):
        n = len(self.ch)
        if len(self.ctx) < self.k:
            self.ctx += (z,)
            return ({z} if self.hard else np.eye(n)[z]), 0.0
        m = self.counts.setdefault(self.ctx, [0] * n)
        m[z] += 1
        self.ctx = (self.ctx + (z,))[1:]
        return decide(m, self.inv, self.ch, self.loss, z, self.hard)


def decide(m, pinv, ch, loss, z, hard):
    x = np.array([sum(m[i] * pinv[i, j] for i in range(len(m))) for j in range(len(m))])
    if hard:
        cost = [sum(x[i] * ch[i, z] * loss[i, j] for i in range(len(m))) for j in range(len(m))]
        best = min(cost)
        return {j for j, c in enumerate(cost) if c <= best + 1e-9}, best
    if x[0] < 1:
        x[0] = 1
    elif x[1] < 1:
        x[1] = 1
    q = x * ch[:, z]
    q = q / q.sum()
    return q, float(q @ loss @ q)


def agrees(got, want, hard):
    est, cost = got
    if hard:
        return int(est) in want[0] and same(cost, want[1])
    return same(np.asarray(est).reshape(-1), want[0]) and same(cost, want[1])


def streams(job, rec):
    ch, loss, k, hard, n, alpha, prefix = job
    C, L = (CH[ch], LOSS[loss]) if alpha == 2 else (CH3, LOSS3)
    for tail in itertools.product(range(alpha), repeat=n - len(prefix)):
        seq = prefix + tail
        rec.at({"channel": ch, "loss": loss, "k": k, "hard": hard, "sequence": seq})
        d, ref = OnlineDude(np.array(C), np.array(L), k, hard, alpha), Ref(C, L, k, hard)
        outs = []
        for t, z in enumerate(seq):
            want = ref.step(z)
            got = d.denoise_sample(z)
            if not agrees(got, want, hard):
                rec.fail(f"sample {t}: estimate {np.asarray(got[0]).tolist()} cost {got[1]}, expected {want}")
            if not hard:
                p = np.asarray(got[0])
                rec.check(p.shape == (1, alpha) and (p >= 0).all() and abs(p.sum() - 1) < 1e-9, f"sample {t}: no probability distribution {p.tolist()}")
            outs.append((np.asarray(got[0]).reshape(-1).tolist(), float(got[1])))
            rec.step()
        # the same stream in two pieces, as sequences
        cut = len(seq) // 2 if len(tail) % 2 else (sum(seq) % (len(seq) + 1))
        d2 = OnlineDude(np.array(C), np.array(L), k, hard, alpha)
        whole = []
        for piece in (seq[:cut], seq[cut:]):
            arr = np.array(piece, dtype=np.int_)
            e, c = d2.denoise_sequence(arr)
            rec.check(arr.tolist() == list(piece), "the observations were changed")
            whole += [(np.asarray(x).reshape(-1).tolist(), float(y)) for x, y in zip(e, c)]
        rec.check(len(whole) == len(outs) and all(same(a[0], b[0]) and same(a[1], b[1]) for a, b in zip(whole, outs)),
                  f"denoising in two pieces (cut at {cut}) differs from sample by sample")
        rec.trace()
    rec.states_n(alpha ** (n - len(prefix)))
    rec.sample({"channel": ch, "loss": loss, "k": k, "hard": hard, "last sequence": seq, "estimates": [o[0] for o in outs]})


def control(job, rec):
    """all histories of samples, reset and initial contexts, and refusals"""
    k, hard, first, depth = job
    ops = [0, 1, "reset", "refuse"] + [("ctx", c) for c in itertools.product((0, 1), repeat=k)][:4]
    for rest in itertools.product(ops, repeat=depth - 1):
        hist = (ops[first],) + rest if first < len(ops) else rest
        rec.at({"k": k, "hard": hard, "history": hist})
        d, ref = OnlineDude(np.array(CH["bsc10"]), np.array(LOSS["ham"]), k, *(() if hard else (False,))), Ref(CH["bsc10"], LOSS["ham"], k, hard)
        for op in hist:
            if op == "reset":
                d.reset()
                ref.reset()
            elif op == "refuse":
                for bad in (2, -1, 7):
                    try:
                        d.denoise_sample(bad)
                        rec.fail(f"observation {bad} accepted")
                    except ValueError:
                        pass
                for bad in ((0,) * (k + 1), (1,) * (k + 2)):
                    try:
                        d.initial_context(bad)
                        rec.fail(f"context of {len(bad)} accepted for k={k}")
                    except ValueError:
                        pass
            elif isinstance(op, tuple):
                d.initial_context(op[1])
                ref.start(op[1])
            else:
                want, got = ref.step(op), d.denoise_sample(op)
                rec.check(agrees(got, want, hard), f"{got} expected {want}")
            rec.step()
        rec.trace()
        rec.state((k, hard, hist))


def long_streams(job, rec):
    """one long stream in which every word of the given length occurs, resets and new contexts on the way"""
    ch, loss, k, hard, alpha, order, how = job
    C, L = (CH[ch], LOSS[loss]) if alpha == 2 else (CH3, LOSS3)
    d, ref = OnlineDude(np.array(C), np.array(L), k, hard, alpha), Ref(C, L, k, hard)
    seq = debruijn(alpha, order)
    if how == "skewed":  # mostly zeros: counts of one context grow large
        seq = [z if t % 3 == 0 else 0 for t, z in enumerate(seq)]
    for t, z in enumerate(seq):
        rec.at({"channel": ch, "loss": loss, "k": k, "hard": hard, "alphabet": alpha, "stream": how, "sample": t})
        if how == "resets" and t % 97 == 96:
            d.reset()
            ref.reset()
        if how == "resets" and t % 131 == 130:
            d.initial_context((0,) * k)
            ref.start((0,) * k)
        got, want = d.denoise_sample(z), ref.step(z)
        rec.check(agrees(got, want, hard), f"estimate {np.asarray(got[0]).tolist()} cost {got[1]}, expected {want}")
        rec.step()
    d2 = OnlineDude(np.array(C), np.array(L), k, hard, alpha)
    ref.reset()
    e, c = d2.denoise_sequence(np.array(seq, dtype=np.int_))
    for t, (z, got) in enumerate(zip(seq, zip(e, c))):
        rec.check(agrees((np.asarray(got[0]), got[1]), ref.step(z), hard), f"as a sequence: estimate {np.asarray(got[0]).tolist()} of sample {t}")
    rec.check(len(e) == len(seq) == len(c), f"{len(e)} estimates of {len(seq)} samples")
    rec.trace()
    rec.states_n(len(seq))


def run(ctx):
    n = 8 if ctx.quick else 11
    jobs = [(c, l, k, h, n, 2, p) for c in CH for l in LOSS for k in (0, 1, 2, 3) for h in (True, False) for p in itertools.product((0, 1), repeat=1)
            if h or l != "asym" or not ctx.quick]
    jobs += [(3, 3, k, True, 6 if ctx.quick else 8, 3, (z,)) for k in (0, 1, 2) for z in range(3)]
    ctx.bounds = {"sequences": f"all binary ones of {n} samples, all ternary ones of {6 if ctx.quick else 8}", "settings": "3 channels, 3 losses, k 0..3, hard and soft",
                  "control": "all histories of 5 (thorough 6) of sample, reset, set context, refused input",
                  "long": "streams with every binary word of 10 (thorough 13), every ternary one of 6 samples, even, skewed and with resets, k 0..6"}
    ctx.assumptions = ["equal costs (1e-9) may be resolved either way"]
    ctx.explore("streams", streams, jobs)
    ctx.explore("control", control, [(k, h, f, 5 if ctx.quick else 6) for k in (0, 1, 2) for h in (True, False) for f in range(4 + min(4, 2 ** k))])
    order = 10 if ctx.quick else 13
    ctx.explore("long", long_streams, [(c, l, k, h, 2, order, how) for c in CH for l in LOSS for k in range(7) for h in (True, False) for how in ("plain", "skewed", "resets")] +
                [(3, 3, k, True, 3, 6, how) for k in range(5) for how in ("plain", "skewed", "resets")])
