"""Relabelling of clusters to classes: every small pair of label sequences and every small overlap matrix."""
import importlib.util
import itertools
import os
import numpy as np
from mc.core import REPO

_spec = importlib.util.spec_from_file_location("clustering_functions", os.path.join(REPO, "runs", "clsutering_analysis", "functions.py"))
functions = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(functions)


def greedy(counts, free_true, free_pred):
    """all maps (as frozensets of pairs) reached by taking a largest remaining overlap first"""
    if not free_true:
        return {frozenset()}
    top = max(counts[t][p] for t in free_true for p in free_pred)
    out = set()
    for t in free_true:
        for p in free_pred:
            if counts[t][p] == top:
                out |= {m | {(p, t)} for m in greedy(counts, free_true - {t}, free_pred - {p})}
    return out


def judge(pred, real, n, dtype, ordered, rec, cache={}):
    rec.at({"predicted": pred, "real": real, "classes": n, "dtype": str(dtype), "real given": not ordered})
    a, b = np.array(pred, dtype=dtype), np.array(real)
    keep_a, keep_b = a.copy(), b.copy()
    got, mapping = functions.relabel(a, n) if ordered else functions.relabel(a, n, b)
    rec.step()
    rec.check((a == keep_a).all() and (b == keep_b).all(), "the labels given were changed")
    m = {int(k): int(v) for k, v in mapping.items()}
    rec.check(sorted(m) == list(range(n)) and sorted(m.values()) == list(range(n)), f"clusters mapped {m}, not one to one")
    want = [m.get(x, 255) for x in pred]
    rec.check(np.asarray(got).tolist() == want, f"relabelled {np.asarray(got).tolist()} with map {m}")
    counts = tuple(tuple(sum(1 for x, y in zip(pred, real) if (y, x) == (t, p)) for p in range(n)) for t in range(n))
    if (n, counts) not in cache:
        cache[n, counts] = greedy(counts, frozenset(range(n)), frozenset(range(n)))
    rec.check(frozenset(m.items()) in cache[n, counts], f"map {m} does not follow the largest overlaps of {counts}")
    rec.trace()
    rec.state((n, pred, real, ordered))


def sequences(job, rec):
    n, length, first, outside = job
    labels = list(range(n)) + ([255] if outside else [])
    for rest in itertools.product(itertools.product(labels, range(n)), repeat=length - 1):
        pairs = (first,) + rest
        judge(tuple(p for p, _ in pairs), tuple(r for _, r in pairs), n, np.uint8 if outside or length % 2 else np.int64, False, rec)
    rec.sample({"classes": n, "length": length, "first": first})


def in_order(job, rec):
    """classes in consecutive order, real labels not given"""
    n, per, first = job
    for rest in itertools.product(range(n), repeat=n * per - 1):
        judge((first,) + rest, tuple(i % n for i in range(n * per)), n, np.uint8 if per % 2 else np.int64, True, rec)


def matrices(job, rec):
    """every overlap matrix with small entries, in one order of samples"""
    n, top, row = job
    for rest in itertools.product(range(top + 1), repeat=n * (n - 1)):
        flat = row + rest
        pairs = [(i % n, i // n) for i, c in enumerate(flat) for _ in range(c)]
        judge(tuple(p for p, _ in pairs), tuple(r for _, r in pairs), n, np.int64, False, rec)


def permuted(n, rec):
    """a perfect clustering under every permutation of the ids, with up to one sample wrong, is relabelled to the classes"""
    real = tuple(i % n for i in range(3 * n))
    for perm in itertools.permutations(range(n)):
        for wrong in range(-1, 3 * n):
            pred = tuple(perm[r] if i != wrong else (perm[r] + 1) % n for i, r in enumerate(real))
            for ordered in (False, True):
                judge(pred, real, n, np.uint8, ordered, rec)


def run(ctx):
    q = ctx.quick
    ctx.bounds = {"sequences": f"all pairs of label sequences: 2 classes up to {6 if q else 7}, 3 classes up to {4 if q else 5}, 4 classes up to 3; unlabelled samples (255) up to 3", "matrices": "all 2x2 overlaps up to 6, all 3x3 up to 2" + ("" if q else ", up to 3"),
                  "in order": "all predictions of 2 classes x 5, 3 classes x 3", "permuted": "all permutations of up to 5 (6) classes, one sample wrong"}
    ctx.assumptions = ["without real labels their number is a multiple of the number of classes", "equal overlaps may be resolved either way"]
    jobs = [(n, length, first, False) for n, top in ((2, 6 if q else 7), (3, 4 if q else 5), (4, 3)) for length in range(1, top + 1) for first in itertools.product(range(n), repeat=2)]
    jobs += [(n, length, first, True) for n in (2, 3) for length in (1, 2, 3) for first in itertools.product([*range(n), 255], range(n))]
    ctx.explore("sequences", sequences, jobs)
    ctx.explore("in_order", in_order, [(2, per, f) for per in (1, 2, 3, 4, 5) for f in range(2)] + [(3, per, f) for per in ((1, 2) if q else (1, 2, 3)) for f in range(3)])
    ctx.explore("matrices", matrices, [(2, 6, r) for r in itertools.product(range(7), repeat=2)] + [(3, 2 if q else 3, r) for r in itertools.product(range(3 if q else 4), repeat=3)])
    ctx.explore("permuted", permuted, [1, 2, 3, 4, 5] + ([] if q else [6]))
