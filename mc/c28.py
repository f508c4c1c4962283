"""Performance figures: bit error rate, precision and recall, and the confusion counts of the decoders' analyses."""
import itertools
import numpy as np
from decoders import mavlink_decoder, combined_decoder, combined_unified_decoder
from utils.performance_analysis import ber, stats
from mc.core import same


def rates(job, rec):
    n, dtypes = job
    for a, b in itertools.product(itertools.product((0, 1), repeat=n), repeat=2):
        rec.at({"truth": a, "predicted": b})
        want = sum(x != y for x, y in zip(a, b)) / n
        for da, db in dtypes:
            got = ber(np.array(a, dtype=da), np.array(b, dtype=db))
            rec.check(same(got, want), f"bit error rate {got} as {da}/{db}, expected {want}")
            rec.step()
        rec.trace()
    rec.states_n(4 ** n)
    rec.sample({"truth": a, "predicted": b, "rate": float(got)})


def judge(cm, rec, out):
    k = len(cm)
    got_cm, recall, precision, f1, acc = out
    rec.check(same(got_cm, cm), f"confusion matrix {np.asarray(got_cm).tolist()}, expected {cm}")
    for c in range(k):
        act, pred = sum(cm[c]), sum(r[c] for r in cm)
        if not act:  # recall and F1 of a class that never occurs are undefined; its precision is not: no prediction of it was wrong, or all
            rec.check(same(precision[c], 0.0 if pred else 1.0), f"class {c} never occurs and was predicted {pred} times: precision {precision[c]}")
            continue
        r, p = cm[c][c] / act, (cm[c][c] / pred if pred else 0.0)
        f = 2 * p * r / (p + r) if p + r else 0.0
        rec.check(same(recall[c], r) and same(precision[c], p) and same(f1[c], f), f"class {c}: recall {recall[c]} precision {precision[c]} f1 {f1[c]}, expected {r} {p} {f}")
    rec.check(same(acc, sum(cm[i][i] for i in range(k)) / sum(map(sum, cm))), f"accuracy {acc}")


def labels(job, rec):
    k, n, first = job
    for rest in itertools.product(range(k), repeat=n - 1):
        act = (first,) + rest
        for pred in itertools.product(range(k), repeat=n):
            rec.at({"actual": act, "predicted": pred})
            if len(set(act + pred)) < k:
                continue  # the figures are of the classes that appear
            cm = [[sum(x == i and y == j for x, y in zip(act, pred)) for j in range(k)] for i in range(k)]
            judge(cm, rec, stats(np.array(act), np.array(pred)))
            rec.step()
            rec.trace()
            rec.states_n(1)


def matrices(job, rec):
    k, top, first = job
    for rest in itertools.product(range(top + 1), repeat=k * k - 1):
        flat = (first,) + rest
        cm = [list(flat[i * k:(i + 1) * k]) for i in range(k)]
        if not any(flat):
            continue
        rec.at({"confusion matrix": cm})
        judge(cm, rec, stats(cm=np.array(cm)))
        rec.step()
        rec.trace()
        rec.states_n(1)
    rec.sample({"confusion matrix": cm})


def long_words(job, rec):
    """many bits, many labels: every number of differences"""
    n, = job
    a = [(i * i // 3) % 2 for i in range(n)]
    for k in list(range(0, n + 1, max(1, n // 64))) + [n]:
        b = [x ^ (i * 7919 % n < k) for i, x in enumerate(a)]
        want = sum(x != y for x, y in zip(a, b))
        rec.at({"bits": n, "differences": want})
        for dt in ("uint8", "bool", "int8", "int64", "float64"):
            rec.check(same(ber(np.array(a, dtype=dt), np.array(b, dtype=dt)), want / n), f"bit error rate of {want} differences in {n} bits as {dt}")
        if 0 < sum(a) < n:
            judge([[sum(x == i and y == j for x, y in zip(a, b)) for j in (0, 1)] for i in (0, 1)], rec, stats(np.array(a), np.array(b)))
        rec.step(6)
        rec.trace()
        rec.states_n(1)


def confusions(job, rec):
    n, = job
    sets = [[i for i in range(n) if m >> i & 1] for m in range(2 ** n)]
    for p, a in itertools.product(sets, repeat=2):
        rec.at({"predicted": p, "actual": a, "of": n})
        neg = n - len(a)
        tp, fp, fn = len(set(p) & set(a)), len(set(p) - set(a)), len(set(a) - set(p))
        want = [tp, fp, neg - fp, fn, len(a), neg]
        for f in (mavlink_decoder.confusion, combined_decoder.confusion, combined_unified_decoder.confusion):
            for form in (p, p[::-1], np.array(p, dtype=np.int_)):
                got = f(form, np.array(a, dtype=np.int_), neg)
                rec.check(same(got, want), f"{np.asarray(got).tolist()}, expected {want}")
                rec.step()
        rec.trace()
    rec.states_n(4 ** n)


def run(ctx):
    q = ctx.quick
    dt = [("int64", "int64"), ("uint8", "uint8"), ("bool", "bool"), ("uint8", "int64"), ("float64", "bool")]
    ctx.bounds = {"rates": f"all pairs of words of up to {5 if q else 7} bits, 5 type combinations", "long": "words of 64 to 1944 bits, about 65 counts of differences each", "labels": "all label sequences: 2 classes up to 5, 3 classes of 4 (thorough 5)",
                  "matrices": "all 2x2 with entries up to 5, all 3x3 with entries up to 2", "confusions": f"all pairs of subsets of {5 if q else 7}"}
    ctx.assumptions = ["sensitivity and precision are undefined (nan) for a class with no positives to count"]
    ctx.explore("rates", rates, [(n, dt) for n in range(1, 6 if q else 8)])
    ctx.explore("long", long_words, [(n,) for n in (64, 127, 128, 129, 255, 256, 257, 300, 648, 1000, 1944)])
    ctx.explore("labels", labels, [(2, n, f) for n in (2, 3, 4, 5) for f in range(2)] + [(3, n, f) for n in ((3, 4) if q else (3, 4, 5)) for f in range(3)])
    ctx.explore("matrices", matrices, [(2, 5, f) for f in range(6)] + [(3, 1 if q else 2, f) for f in range(2 if q else 3)])
    ctx.explore("confusions", confusions, [(n,) for n in range(1, 6 if q else 8)])
