"""Information measures: distribution estimates, entropies, distances and typical set sizes against their definitions."""
import itertools
import math
import numpy as np
from utils.custom_exceptions import UnsupportedDtype
from utils.information_theory import prob, prob_with_alphabet, entropy, hellinger, typical_set_cardinality
from mc.core import same


def estimate_1d(job, rec):
    values, n, dtype = job
    for data in itertools.product(values, repeat=n):
        rec.at({"data": data, "dtype": dtype})
        arr = np.array(data, dtype=dtype)
        p, alpha = prob_with_alphabet(arr)
        want = sorted(set(data))
        rec.check(list(alpha) == want and same(p, [data.count(v) / n for v in want]), f"{np.asarray(p).tolist()} over {alpha}")
        rec.check(same(prob(arr), p), "prob differs from prob_with_alphabet")
        rec.check(arr.tolist() == list(data), "the data were changed")
        rec.step()
        rec.trace()
    rec.states_n(len(values) ** n)
    rec.sample({"data": data, "distribution": np.asarray(p).tolist(), "alphabet": alpha})


def estimate_2d(job, rec):
    values, rows, cols, dtype = job
    for data in itertools.product(values, repeat=rows * cols):
        arr = np.array(data, dtype=dtype).reshape(rows, cols)
        rec.at({"data": arr.tolist(), "dtype": dtype})
        p, alpha = prob_with_alphabet(arr)
        want = sorted(set(data))
        rec.check(list(alpha) == want and same(p, [[r.count(v) / cols for v in want] for r in arr.tolist()]), f"{np.asarray(p).tolist()} over {alpha}")
        rec.check(same(prob(arr), p), "prob differs from prob_with_alphabet")
        rec.step()
        rec.trace()
    rec.states_n(len(values) ** (rows * cols))


def simplex(k, d):
    """all distributions over k symbols with denominator d"""
    if k == 1:
        yield (d,)
        return
    for x in range(d + 1):
        for rest in simplex(k - 1, d - x):
            yield (x,) + rest


def h(p, base):
    return -sum(x * math.log(x) for x in p if x > 0) / math.log(base)


def measures(job, rec):
    k, d = job
    dists = [tuple(x / d for x in s) for s in simplex(k, d)]
    for p in dists:
        rec.at({"distribution": p})
        for base in (2, 3, 10):
            e = entropy(np.array(p), base)
            rec.check(isinstance(e, np.ndarray) and e.shape == () and same(e, h(p, base)), f"entropy {e} base {base}, expected {h(p, base)}")
        rec.check(same(entropy(np.array(p)), h(p, 2)), "entropy is not in bits by default")
        for n, eps in itertools.product((1, 5, 12), (1e-5, 0.1, 0.5)):
            lb, ub = typical_set_cardinality(n, np.array(p), eps=eps)
            wl, wu = (1 - eps) * 2 ** (n * (h(p, 2) - eps)), 2 ** (n * (h(p, 2) + eps))
            rec.check(same(lb, wl, 1e-8) and same(ub, wu, 1e-8), f"typical set between {lb} and {ub}, expected {wl} and {wu}")
            rec.check(eps != 1e-5 or same(typical_set_cardinality(n, np.array(p)), (wl, wu), 1e-8), "another epsilon by default")
            for given in (0.75, 0.0, 1.0, 2.5, 0):
                want = ((1 - eps) * 2 ** (n * (given - eps)), 2 ** (n * (given + eps)))
                rec.check(same(typical_set_cardinality(n, np.array(p[::-1]), given, eps), want) and same(typical_set_cardinality(n, ent=given, eps=eps), want), f"a given entropy of {given} is not used")
        rec.step(4)
        for q in dists:
            rec.at({"distributions": (p, q)})
            want = math.sqrt(max(0.0, 1 - sum(math.sqrt(x * y) for x, y in zip(p, q))))
            got = hellinger(np.array(p), np.array(q))
            rec.check(abs(float(got) - want) < 1e-7 and 0 <= got <= 1, f"Hellinger distance {got}, expected {want}")
            two = hellinger(np.array([p, q]), np.array([q, q]))
            rec.check(two.shape == (2,) and abs(two[0] - want) < 1e-7 and abs(two[1]) < 1e-7, f"Hellinger distances {two.tolist()}")
            e = entropy(np.array([p, q, p]))
            rec.check(e.shape == (3,) and same(e, [h(p, 2), h(q, 2), h(p, 2)]), f"row entropies {e.tolist()}")
            rec.step(3)
        rec.trace()
    rec.states_n(len(dists) ** 2)
    rec.sample({"symbols": k, "denominator": d, "distributions": len(dists)})


def many(job, rec):
    """long sequences, wide arrays and large alphabets"""
    n, k, dtype = job
    rec.at({"length": n, "symbols": k, "dtype": dtype})
    data = [((i * i + 3 * i) // 2 + i // 7) % k for i in range(n)]
    arr = np.array(data, dtype=dtype)
    p, alpha = prob_with_alphabet(arr)
    want = sorted(set(data))
    rec.check(list(alpha) == want and same(p, [data.count(v) / n for v in want]) and same(prob(arr), p), "distribution of a long sequence")
    rec.check(same(entropy(p), h([data.count(v) / n for v in want], 2)), "entropy of a long sequence")
    rows = [data[i:] + data[:i] for i in range(0, 40, 3)] + [[data[0]] * n]
    p2, alpha2 = prob_with_alphabet(np.array(rows, dtype=dtype))
    w2 = [[r.count(v) / n for v in want] for r in rows]
    rec.check(list(alpha2) == want and same(p2, w2) and same(prob(np.array(rows, dtype=dtype)), w2), "distributions of long rows")
    rec.check(same(entropy(p2), [h(r, 2) for r in w2]), "entropies of long rows")
    d = hellinger(p2, p2[::-1])
    rec.check(all(abs(x - math.sqrt(max(0.0, 1 - sum(math.sqrt(a * b) for a, b in zip(r, s))))) < 1e-7 for x, r, s in zip(d, w2, w2[::-1])), "Hellinger distances of long rows")
    rec.step(6)
    rec.trace()
    rec.states_n(1)


def refusals(_, rec):
    one, three = np.array([0.5, 0.5]), np.full((2, 2, 2), 0.5)
    cases = [(UnsupportedDtype, lambda: prob(np.array([0.5, 1.0]))), (UnsupportedDtype, lambda: prob_with_alphabet(np.array([[0.5, 1.0]]))),
             (ValueError, lambda: prob(np.zeros((2, 2, 2), dtype=int))), (ValueError, lambda: entropy(three)), (ValueError, lambda: entropy(np.array(0.5))),
             (ValueError, lambda: hellinger(one, np.array([one, one]))), (ValueError, lambda: hellinger(np.array([one, one]), one)), (ValueError, lambda: hellinger(three, three)),
             (ValueError, lambda: typical_set_cardinality(3))]
    cases += [(ValueError, lambda n=n: typical_set_cardinality(n, one)) for n in (0, -1, -7)] + [(ValueError, lambda e=e: typical_set_cardinality(3, one, eps=e)) for e in (0, -0.1)]
    for i, (exc, f) in enumerate(cases):
        rec.at({"case": i})
        try:
            f()
        except exc:
            pass
        else:
            rec.fail(f"case {i}: not refused with {exc.__name__}")
        rec.step()
        rec.trace()
    rec.states_n(len(cases))


def run(ctx):
    n = 6 if ctx.quick else 8
    ctx.bounds = {"data": f"all sequences of up to {n} of 3 symbols, all 2x3, 3x2, 1x4, 4x1 arrays", "long data": "90 sequences of 100 to 1000 of up to 100 symbols", "distributions": "all over 2-4 symbols with denominators up to 12 (thorough 24), all pairs"}
    ctx.assumptions = ["distributions sum to one"]
    ctx.explore("1d", estimate_1d, [(v, k, d) for v, d in (((0, 1, 2), "int64"), ((0, 255, 7), "uint8"), ((-3, 0, 9), "int16"), ((False, True), "bool")) for k in range(1, n + 1)])
    ctx.explore("2d", estimate_2d, [(v, r, c, d) for v, d in (((0, 1, 2), "int64"), ((0, 200), "uint8")) for r, c in ((2, 3), (3, 2), (1, 4), (4, 1), (2, 4))])
    ctx.explore("measures", measures, [(2, d) for d in range(1, 13)] + [(3, 4), (3, 5), (4, 3), (4, 4)] + ([] if ctx.quick else [(2, 24), (3, 8), (4, 6), (5, 4)]))
    ctx.explore("many", many, [(n, k, d) for n in (100, 255, 256, 257, 300, 1000) for k in (1, 2, 3, 17, 100) for d in ("uint8", "int16", "int64")])
    ctx.explore("refusals", refusals, [0])
