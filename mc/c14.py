"""Online classification: label protocol, and no sample is ever lost, duplicated or credited to another cluster."""
import itertools
import numpy as np
from bitstring import Bits
from inference.clustering import BufferClassifier, Cluster
from mc.core import same, debruijn

CONFIGS = [(c, m, w) for c in ("LL", "hamming") for m in ("Hellinger", "KlDiv") for w in ("linear", "sqrt", "none")]


def onehot(s):
    return np.array([[1 - b, b] for b in s])


def snapshot(cl):
    return [(c.uid, len(c), np.rint(np.asarray(c.dist) * len(c)).astype(int)) for c in cl.clusters]


def history(min_size, k, cfg, hist, form, rec):
    rec.at({"min_data_size": min_size, "k": k, "config": cfg, "history": hist})
    cl = BufferClassifier(min_size, k, *cfg)
    total = np.zeros((len(hist[0]), 2), dtype=int)
    n_clusters = min(k, min_size - 1)
    prev = None
    for t, s in enumerate(hist):
        buf = np.array(s, dtype=np.int_) if form == "array" else Bits(bin="".join(map(str, s)))
        label = cl.classify(buf)
        total += onehot(s)
        snap = snapshot(cl)
        rec.step()
        rec.check(cl.samples == t + 1, f"{cl.samples} samples counted after {t + 1}")
        for c, (_, n, counts) in zip(cl.clusters, snap):
            rec.check(same(np.asarray(c.dist) * n, counts) and (counts.sum(axis=1) == n).all() and n == c.n_samples,
                      f"cluster {c.uid} of {n} samples has distribution {np.asarray(c.dist).tolist()}")
            rec.check(all(h == (b > a) or (a == b and n > 20) for h, (a, b) in zip(np.asarray(c.hard_bits).tolist(), counts.tolist())), "hard bits are not the majority")
        rec.check((sum(s[2] for s in snap) == total).all() and sum(s[1] for s in snap) == t + 1, f"after {t + 1} samples the clusters hold {[s[1] for s in snap]}")
        if t + 1 < min_size:
            rec.check(label == -1, f"label {label} while gathering data (sample {t + 1} of {min_size})")
        else:
            rec.check(label in range(n_clusters) and isinstance(label, (int, np.integer)), f"label {label} with {n_clusters} clusters")
            rec.check([s[0] for s in snap] == list(range(n_clusters)), f"cluster ids {[s[0] for s in snap]}, expected 0..{n_clusters - 1}")
            if prev is not None:
                for a, b in zip(prev, snap):
                    add = onehot(s) if b[0] == label else 0
                    rec.check((b[2] == a[2] + add).all() and b[1] == a[1] + (b[0] == label), f"sample labelled {label}, but cluster {b[0]} changed otherwise")
            else:
                rec.check((snap[label][2] - onehot(s) >= 0).all(), "the labelled cluster does not hold the sample")
            prev = snap
    rec.trace()
    rec.state((min_size, k, cfg, hist))


def histories(job, rec):
    min_size, k, cfgs, bits, first, depth = job
    words = list(itertools.product((0, 1), repeat=bits))
    for n in range(depth):
        for rest in itertools.product(words, repeat=n):
            for i, cfg in enumerate(cfgs):
                history(min_size, k, cfg, (first,) + rest, "array" if (n + i) % 2 else "bits", rec)
    rec.sample({"min_data_size": min_size, "k": k, "history": (first,) + rest})


def cluster_object(n, rec):
    """Cluster on its own: all sample multisets through add and merge"""
    words = list(itertools.product((0, 1), repeat=2))
    for hist in itertools.product(words, repeat=n):
        for cut in range(1, n):
            rec.at({"history": hist, "cut": cut})
            parts = []
            for uid, part in enumerate((hist[:cut], hist[cut:])):
                c = Cluster(onehot(part[0]).astype(float), uid)
                for s in part[1:]:
                    c.add_sample(Bits(bin="".join(map(str, s))))
                parts.append(c)
            other = np.asarray(parts[1].dist).copy()
            parts[0].merge_cluster(parts[1])
            want = sum(onehot(s) for s in hist)
            rec.check(len(parts[0]) == n and same(parts[0].dist, want / n) and parts[0].uid == 0, "a merged cluster is not the union")
            rec.check(np.asarray(parts[0].hard_bits).tolist() == (want[:, 1] > want[:, 0]).astype(int).tolist(), "majority of a merged cluster")
            rec.check(len(parts[1]) == n - cut and same(parts[1].dist, other), "merging changed the other cluster")
            parts[0].add_sample(np.array([1, 0]))
            want = want + onehot((1, 0))
            rec.check(len(parts[0]) == n + 1 and same(parts[0].dist, want / (n + 1)), "adding to a merged cluster")
            rec.check(len(parts[1]) == n - cut and same(parts[1].dist, other), "adding to a merged cluster changed the other one")
            rec.step(3)
            rec.trace()
        rec.state((n, hist))


def from_distribution(n, rec):
    """a cluster made from the distribution of n samples, every number of ones, goes on like the cluster those samples built"""
    rec.at({"n_samples": n})
    want = np.array([[n - k, k] for k in range(n + 1)])
    c = Cluster(want / n, 5, n)
    rec.check(len(c) == n and c.uid == 5 and same(c.dist, want / n), f"a cluster made from a distribution over {n} samples has another distribution")
    rec.check(np.asarray(c.hard_bits).tolist() == [int(2 * k > n) for k in range(n + 1)] or n % 2 == 0 and n > 20, "majority")
    s = [k % 2 for k in range(n + 1)]
    c.add_sample(np.array(s))
    rec.check(len(c) == n + 1 and same(c.dist, (want + onehot(s)) / (n + 1)), "adding to a cluster made from a distribution")
    d = Cluster(want / n, 6, n)
    d.merge_cluster(c)
    rec.check(len(d) == 2 * n + 1 and same(d.dist, (2 * want + onehot(s)) / (2 * n + 1)), "merging clusters made from distributions")
    rec.step(3)
    rec.trace()
    rec.state((n,))


def long_stream(order, n_bits, length):
    """words of n_bits following a de Bruijn order over noisy copies of a few centres"""
    base = [(0,) * n_bits, (1,) * n_bits, tuple(i % 2 for i in range(n_bits)), tuple(i // 4 % 2 for i in range(n_bits)), (0,) * (n_bits // 2) + (1,) * (n_bits - n_bits // 2)]
    out = []
    for t, i in enumerate((debruijn(len(base), order) * 9)[:length]):
        w = list(base[i])
        for f in ((t * 7) % (2 * n_bits), (t * t * 3) % (3 * n_bits)):
            if f < n_bits:
                w[f] ^= 1
        out.append(tuple(w))
    return out


def steady(_, n_bits, length):
    """words in which nearly every bit stays what it is, for a long time"""
    return [tuple((i % 3 > 0) ^ ((t * 7) % (5 * n_bits) == i) ^ (i == n_bits - 1 and t % 2) for i in range(n_bits)) for t in range(length)]


def long_history(job, rec):
    min_size, k, cfg, n_bits, length = job
    history(min_size, k, cfg, tuple(long_stream(2, n_bits, length)), "array" if k % 2 else "bits", rec)
    rec.sample({"min_data_size": min_size, "k": k, "config": cfg, "samples": length})


def run(ctx):
    depth2, depth3 = (4, 3) if ctx.quick else (6, 4)
    jobs = []
    for ms in (2, 3, 4, 5):
        for k in (1, 2, 3):
            for first in itertools.product((0, 1), repeat=2):
                jobs.append((ms, k, CONFIGS[::3] if ctx.quick else CONFIGS, 2, first, max(depth2, min(ms, 5) if ctx.quick else ms + 1)))
    for ms, k in ((2, 2), (3, 2), (3, 1), (4, 3)):
        for first in itertools.product((0, 1), repeat=3):
            jobs.append((ms, k, CONFIGS[1::4], 3, first, depth3))
    ctx.bounds = {"histories": f"all of up to {max(depth2, 5)} two bit and {depth3} three bit samples", "configurations": "min_data_size 2..5, k 1..3, "
                  + ("4 of the 12 metric settings" if ctx.quick else "12 metric settings"), "clusters": "all splits of up to 5 samples; clusters made from every distribution over up to 199 samples",
                  "long": "300 samples of 8, 16 and 40 bits, min_data_size 8, 12, 20, k 1..7"}
    ctx.assumptions = ["min_data_size of at least 2 and k of at least 1 (with less, no cluster exists)"]
    ctx.explore("histories", histories, jobs)
    ctx.explore("cluster", cluster_object, [2, 3, 4, 5])
    ctx.explore("from_distribution", from_distribution, list(range(1, 200 if ctx.quick else 1000)))
    ctx.explore("long", long_history, [(ms, k, cfg, b, 300 if ctx.quick else 1500) for ms, k, b in ([(8, 2, 16), (8, 7, 8), (12, 3, 16), (12, 1, 40), (20, 4, 16), (20, 7, 40)] if ctx.quick else
                                                                                          itertools.product((8, 12, 20), (1, 2, 3, 4, 7), (8, 16, 40))) for cfg in CONFIGS])
