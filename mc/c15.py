"""Classification picks a nearest cluster, and clusters are formed by merging nearest pairs, by the chosen measures."""
import itertools
import math
import numpy as np
from bitstring import Bits
from inference.clustering import BufferClassifier
from mc.c14 import CONFIGS, long_stream, onehot, snapshot

EPS = 2.0 ** -52
TOL = 1e-9


def merge_dist(a, b, kind, scheme):
    (na, ca), (nb, cb) = a, b
    w = (na + nb) / 2
    w = w if scheme == "linear" else math.sqrt(w) if scheme == "sqrt" else 1
    tot = 0.0
    for ra, rb in zip(ca, cb):
        p, q = [x / na for x in ra], [x / nb for x in rb]
        if kind == "KlDiv":
            d = 0.0
            for x, y in zip(p + q, q + p):
                d += 0 if x == 0 else math.inf if y == 0 else x * math.log2(x / y)
            tot += min(max(d, 0), 10)
        else:
            tot += math.sqrt(max(1 - sum(math.sqrt(x * y) for x, y in zip(p, q)), 0))
    return w * tot / len(ca)


def merge_all(clusters, k, kind, scheme, limit=None):
    """all sets of clusters reachable by merging a nearest pair (ties: any) until k are left"""
    frontier = {tuple(clusters)}
    while len(next(iter(frontier))) > k:
        nxt = set()
        for cs in frontier:
            ds = {(i, j): merge_dist(cs[i], cs[j], kind, scheme) for i, j in itertools.combinations(range(len(cs)), 2)}
            best = min(ds.values())
            for (i, j), d in ds.items():
                if d <= best + TOL:
                    m = (cs[i][0] + cs[j][0], tuple(tuple(x + y for x, y in zip(r, s)) for r, s in zip(cs[i][1], cs[j][1])))
                    nxt.add(tuple(sorted([c for x, c in enumerate(cs) if x not in (i, j)] + [m])))
        frontier = nxt
        if limit and len(frontier) > limit:  # too many ties to follow
            return None
    return {tuple(sorted(f)) for f in frontier}


def closeness(n, counts, s, kind):
    """greater is nearer"""
    if kind == "hamming":
        return -sum((c[1] > c[0]) != bool(b) for c, b in zip(counts, s))
    return sum(min(max(math.log(c[b] / n + EPS), -100), 0) for c, b in zip(counts, s)) / len(s)


CACHE = {}


def history(min_size, k, cfg, hist, rec, limit=None):
    rec.at({"min_data_size": min_size, "k": k, "config": cfg, "history": hist})
    cl = BufferClassifier(min_size, k, *cfg)
    for t, s in enumerate(hist):
        before = snapshot(cl)
        label = cl.classify(Bits(bin="".join(map(str, s))))
        rec.step()
        if t + 1 < min_size:
            continue
        if t + 1 == min_size:
            after = snapshot(cl)
            before = [(u, n - (u == label), c - (onehot(s) if u == label else 0)) for u, n, c in after]
            key = (min_size, k, cfg[1:], hist[:t])
            if key not in CACHE:
                CACHE[key] = merge_all([(1, tuple(map(tuple, onehot(x).tolist()))) for x in hist[:t]], k, cfg[1], cfg[2], limit)
            got = tuple(sorted((n, tuple(map(tuple, c.tolist()))) for _, n, c in before))
            rec.check(CACHE[key] is None or got in CACHE[key], f"initial clusters {got}, merging nearest pairs gives {sorted(CACHE[key] or [])[:2]}")
        near = {u: closeness(n, c.tolist(), s, cfg[0]) for u, n, c in before}
        best = max(near.values())
        rec.check(label in near and near[label] >= best - TOL, f"sample {s} labelled {label}; nearness per cluster {near}")
    rec.trace()
    rec.state((min_size, k, cfg, hist))


def histories(job, rec):
    min_size, k, cfg, bits, first, depth = job
    CACHE.clear()
    words = list(itertools.product((0, 1), repeat=bits))
    for rest in itertools.product(words, repeat=depth - 1):
        history(min_size, k, cfg, (first,) + rest, rec)
    rec.sample({"min_data_size": min_size, "k": k, "config": cfg, "history": (first,) + rest})


def long_words(job, rec):
    """longer words: noisy copies of two centres in all orders"""
    k, cfg, order = job
    words = ["00000000", "11110000", "11111111", "10000000", "11110001", "01111111"]
    ws = [tuple(int(c) for c in w) for w in words]
    for probe in itertools.product(range(len(ws)), repeat=2):
        history(5, k, cfg, tuple(ws[i] for i in order) + tuple(ws[i] for i in probe), rec)


POOL = [tuple((x >> i) & 1 for i in range(14)) for x in (0x0000, 0x0001, 0x0007, 0x001f, 0x3fff, 0x3ffa, 0x3fc3, 0x1555, 0x1655, 0x2aaa, 0x00ff, 0x03f7, 0x3333, 0x0b2d)]


def sets(job, rec):
    """words at many different distances: all sets with a given first word, merged and then probed"""
    size, k, cfg, first = job
    CACHE.clear()
    for n, rest in enumerate(itertools.combinations(range(first + 1, len(POOL)), size - 1)):
        chosen = (first,) + rest
        if n % 2:
            chosen = chosen[::-1]
        history(size + 1, k, cfg, tuple(POOL[i] for i in chosen + ((sum(chosen) + 1) % len(POOL), sum(chosen) % 5)), rec)
    rec.sample({"samples merged": size, "k": k, "config": cfg})


SPREAD = [w.split() for w in (
    "111111 101100 101000 110101 100011 110010 000000 110001", "00001101 00101010 10010111 01001111 01101101 11001001 00100000 00110011 11000101 00110011",
    "11001101 11001001 10101110 11001101 11110011 00110000 01010000 00010101 11100101 10101100", "00101100 00000101 00111111 01100111 10000001 10000011 10001001 00100001 01100111 01000110")]


def spread(job, rec):
    """scattered words, whose mergers depend on how distances in single bits are bounded and weighed; every rotation"""
    words, k, cfg = job
    CACHE.clear()
    ws = [tuple(map(int, w)) for w in words]
    for r in range(len(ws)):
        history(len(ws) + 1, k, cfg, tuple(ws[r:] + ws[:r] + ws[:2]), rec, limit=200)


def wide(job, rec):
    """hundreds of bits: distances above a byte, and nothing lost in the average"""
    cfg, n = job
    CACHE.clear()
    base = [tuple(int(i < c) for i in range(n)) for c in (0, 3, n - 5, n, n // 2)]
    probes = [tuple(b ^ (i % p == 0) for i, b in enumerate(base[j])) for j, p in ((0, 2), (3, 3), (4, 7), (1, 1), (2, 5), (0, 3), (3, 2))]
    for perm in itertools.permutations(range(5), 3):
        history(4, 2, cfg, tuple(base[i] for i in perm) + tuple(probes[sum(perm) % 3:]), rec)


def long_history(job, rec):
    """many samples: clusters of unequal size, formed from up to 19 samples"""
    CACHE.clear()
    min_size, k, cfg, n_bits, length = job
    history(min_size, k, cfg, tuple(long_stream(2, n_bits, length)), rec, limit=60)
    rec.sample({"min_data_size": min_size, "k": k, "config": cfg, "samples": length})


def run(ctx):
    jobs = []
    for cfg in CONFIGS:
        for ms, k, bits, depth in ([(2, 1, 2, 4), (3, 1, 2, 4), (4, 2, 2, 5), (5, 2, 2, 5), (4, 2, 3, 4)] if ctx.quick else
                                   [(2, 1, 2, 6), (3, 2, 2, 6), (4, 2, 2, 6), (5, 2, 2, 6), (5, 3, 2, 6), (4, 2, 3, 5), (4, 3, 3, 5), (6, 2, 2, 7)]):
            if ctx.quick and bits == 3 and cfg not in CONFIGS[::4]:
                continue
            jobs += [(ms, k, cfg, bits, f, depth) for f in itertools.product((0, 1), repeat=bits)]
    ctx.bounds = {"histories": "all of 4-5 (thorough 5-7) samples of 2 or 3 bits, per metric setting", "long": ("every seventh order" if ctx.quick else "all orders") + " of 4 of 6 eight bit words, then all 2 more",
                  "many": "300 samples of 8, 16 and 40 bits, min_data_size 8, 12, 20, k 1..7 (initial clusters only where at most 60 tied mergers)"}
    ctx.assumptions = ["equal or nearly equal (1e-9) distances may be resolved either way"]
    ctx.explore("histories", histories, jobs)
    orders = list(itertools.permutations(range(6), 4))
    ctx.explore("long", long_words, [(k, cfg, o) for k in (2, 3) for cfg in (CONFIGS if not ctx.quick else CONFIGS[1::4]) for o in (orders[::7] if ctx.quick else orders)])
    ctx.bounds["sets"] = "all sets of 5 (thorough also 6, 7) out of 14 words of 14 bits, clustered to 2 or 3, then probed; 3 of 5 words of 300 (600) bits in all orders"
    ctx.explore("sets", sets, [(size, k, cfg, f) for size in ((5,) if ctx.quick else (5, 6, 7)) for k in (2, 3) for i, cfg in enumerate(CONFIGS) if not ctx.quick or i < 6 and k == 2 or i >= 6 and k == 3 for f in range(len(POOL) - size + 1)])
    ctx.bounds["spread"] = "four sets of 8 or 10 scattered words, every rotation, clustered to 2 (thorough 1 to 4), all metrics"
    ctx.explore("spread", spread, [(w, k, cfg) for w in SPREAD for k in ((2,) if ctx.quick else (1, 2, 3, 4)) for cfg in CONFIGS])
    ctx.explore("wide", wide, [(cfg, n) for cfg in CONFIGS for n in ((300,) if ctx.quick else (300, 600))])
    ctx.explore("many", long_history, [(ms, k, cfg, b, 300 if ctx.quick else 1500) for ms, k, b in ([(8, 2, 16), (8, 7, 8), (12, 3, 16), (12, 1, 40), (20, 4, 16), (20, 7, 40)] if ctx.quick else
                                                                                          itertools.product((8, 12, 20), (1, 2, 3, 4, 7), (8, 16, 40))) for cfg in CONFIGS])
