"""Two pass denoiser: every inner sample is estimated from the counts of its two-sided context over the whole sequence."""
import itertools
import numpy as np
from inference.dude import DUDE
from mc.core import same, debruijn
from mc.c16 import CH, LOSS, CH3, LOSS3, inv, decide


def reference(seq, ch, loss, k, hard):
    n, a = len(seq), len(ch)
    counts = {}
    for i in range(k, n - k):
        counts.setdefault((seq[i - k:i], seq[i + 1:i + k + 1]), [0] * a)[seq[i]] += 1
    out, cost = [], 0.0
    for i, z in enumerate(seq):
        if k <= i < n - k:
            e, c = decide(counts[(seq[i - k:i], seq[i + 1:i + k + 1])], inv(ch), np.array(ch), np.array(loss, dtype=float), z, hard)
            out.append(e)
            cost += c
        else:
            out.append({z} if hard else np.eye(a)[z])
    return out, cost / n


def sequences(job, rec):
    ch, loss, k, hard, n, alpha, prefix = job
    C, L = (CH[ch], LOSS[loss]) if alpha == 2 else (CH3, LOSS3)
    d = DUDE(np.array(C), np.array(L), k, *((hard, alpha) if alpha > 2 else () if hard else (False,)))  # hard decisions on bits by default
    for tail in itertools.product(range(alpha), repeat=n - len(prefix)):
        seq = prefix + tail
        rec.at({"channel": ch, "loss": loss, "k": k, "hard": hard, "sequence": seq})
        arr = np.array(seq, dtype=np.int_)
        est, cost = d.denoise_sequence(arr)
        want, wcost = reference(seq, C, L, k, hard)
        rec.check(arr.tolist() == list(seq), "the observations were changed")
        rec.check(len(est) == n and all((int(e) in w) if hard else same(e, w) for e, w in zip(est, want)), f"estimates {np.asarray(est).tolist()}, expected {want}")
        rec.check(same(cost, wcost), f"cost {cost}, expected {wcost}")
        if not hard:
            rec.check((np.asarray(est) >= 0).all() and same(np.asarray(est).sum(axis=1), np.ones(n)), "soft estimates are no distributions")
        rec.step(n)
        rec.trace()
    rec.states_n(alpha ** (n - len(prefix)))
    rec.sample({"channel": ch, "loss": loss, "k": k, "hard": hard, "sequence": seq, "cost": cost})


def long_sequences(job, rec):
    """one long sequence in which every word of the given length occurs"""
    ch, loss, k, hard, alpha, order, skew = job
    C, L = (CH[ch], LOSS[loss]) if alpha == 2 else (CH3, LOSS3)
    d = DUDE(np.array(C), np.array(L), k, hard, alpha)
    seq = tuple(z if t % 3 == 0 or not skew else 0 for t, z in enumerate(debruijn(alpha, order)))
    for part in (seq, seq[:len(seq) // 3], seq):
        rec.at({"channel": ch, "loss": loss, "k": k, "hard": hard, "alphabet": alpha, "samples": len(part), "skewed": skew})
        est, cost = d.denoise_sequence(np.array(part, dtype=np.int_))
        want, wcost = reference(part, C, L, k, hard)
        bad = [i for i, (e, w) in enumerate(zip(est, want)) if not ((int(e) in w) if hard else same(e, w))]
        rec.check(len(est) == len(part) and not bad, f"{len(est)} estimates, wrong ones {bad[:5]}")
        rec.check(same(cost, wcost), f"cost {cost}, expected {wcost}")
        rec.step(len(part))
        rec.trace()
        rec.state((job, len(part)))


def run(ctx):
    top = 8 if ctx.quick else 12
    jobs = [(c, l, k, h, n, 2, p) for n in ([1, 2, 3, 5, 6, top]) for c in CH for l in LOSS for k in (0, 1, 2, 3) for h in (True, False)
            for p in itertools.product((0, 1), repeat=1)]
    jobs += [(3, 3, k, True, n, 3, (z,)) for n in (3, 5, 6 if ctx.quick else 8) for k in (1, 2) for z in range(3)]
    ctx.bounds = {"sequences": f"all binary ones of 1,2,3,5,6,{top} samples, all ternary ones of 3,5,{6 if ctx.quick else 8}", "settings": "3 channels, 3 losses, k 0..3, hard and soft",
                  "long": "sequences with every binary word of 10 (thorough 13), every ternary one of 6 samples, even and skewed, k 0..5"}
    ctx.assumptions = ["equal costs (1e-9) may be resolved either way"]
    ctx.explore("sequences", sequences, jobs)
    ctx.explore("long", long_sequences, [(c, l, k, h, 2, 10 if ctx.quick else 13, sk) for c in CH for l in LOSS for k in range(6) for h in (True, False) for sk in (False, True)] +
                [(3, 3, k, True, 3, 6, sk) for k in range(4) for sk in (False, True)])
