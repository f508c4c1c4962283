"""Bernoulli mixture: every fitting step is one of expectation maximisation; scores and labels follow from the fitted mixture."""
import itertools
import math
import numpy as np
from inference.bmm import BMM
from mc.core import same


class Script:
    """stands in for the random generators: the initial values are the exploration's choice"""

    def __init__(self, values):
        self.values, self.used = values, 0

    def uniform(self, low=0.0, high=1.0, size=None):
        n = int(np.prod(size))
        self.used += 1
        return low + (high - low) * np.array(list(itertools.islice(itertools.cycle(self.values), n))).reshape(size)

    def random(self, size=None):
        return self.uniform(size=size)

    random_sample = random

    def rand(self, *size):
        return self.uniform(size=size)


def fit(x, k, iters, values):
    src = Script(values)
    saved = {n: getattr(np.random, n) for n in ("RandomState", "default_rng", "uniform", "random", "rand")}
    try:
        np.random.RandomState = np.random.default_rng = lambda *a, **kw: src
        np.random.uniform, np.random.random, np.random.rand = src.uniform, src.random, src.rand
        m = BMM(k, iters)
        m.fit(x)
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)
    return m, src.used > 0


def likelihood(pi, mu, s):
    return [p * math.prod(m if b else 1 - m for m, b in zip(row, s)) for p, row in zip(pi, mu)]


def em(pi, mu, data):
    """one step, or None where some sample is impossible or a component dies (then only the invariants are judged)"""
    gamma = []
    for s in data:
        w = likelihood(pi, mu, s)
        if sum(w) < 1e-12:
            return None
        gamma.append([v / sum(w) for v in w])
    neff = [sum(g[c] for g in gamma) for c in range(len(pi))]
    if min(neff) < 1e-9:
        return None
    return [n / len(data) for n in neff], [[sum(g[c] * s[d] for g, s in zip(gamma, data)) / neff[c] for d in range(len(data[0]))] for c in range(len(pi))]


def rounded_off(before, now, want):
    """the fit kept its values although a probability of the next step is 1, which rounding may put beyond 1 (no logarithm)"""
    return before == now and any(abs(v - 1) < 1e-12 for r in want[1] for v in r)


def judge(m, data, rec, fitted):
    pi, mu = m.pi.tolist(), m.mu.tolist()
    d = len(data[0])
    rec.check(same(sum(pi), 1) and min(pi) >= 0, f"weights {pi} are no distribution")
    rec.check(all(-1e-12 <= v <= 1 + 1e-12 for r in mu for v in r), f"probabilities {mu} out of range")
    if fitted:
        rec.check(same([sum(p * r[j] for p, r in zip(pi, mu)) for j in range(d)], [sum(s[j] for s in data) / len(data) for j in range(d)], 1e-6),
                  "the mixture's mean is not the mean of the data")
    every = list(itertools.product((0, 1), repeat=d))
    x = np.array(every)
    scores, labels, score = m.score_samples(x), m.predict(x), m.score(x)
    rec.check(same(score, np.mean(scores)), f"score {score} is not the mean of {scores.tolist()}")
    for s, got, lab in zip(every, scores, labels):
        w = likelihood(pi, mu, s)
        if sum(w) < 1e-12:
            rec.check(got < -20, f"impossible sample {s} scores {got}")
            continue
        rec.check(same(got, math.log(sum(w)), 1e-7), f"sample {s} scores {got}, expected {math.log(sum(w))}")
        rec.check(w[int(lab)] >= max(w) * (1 - 1e-9), f"sample {s} labelled {lab}, components' shares {w}")
    rec.step()
    return pi, mu


def explore(job, rec):
    k, data, grid, steps = job
    x = np.array(data)
    for values in itertools.product(grid, repeat=k * len(data[0])):
        rec.at({"components": k, "data": data, "initial values": values})
        before, scripted = None, True
        for it in range(0, steps + 1):
            arr = x.copy()
            m, used = fit(arr, k, it, values)
            scripted = scripted and used
            rec.at({"components": k, "data": data, "initial values": values, "steps": it, "initial values taken": used})
            rec.check(arr.tolist() == x.tolist(), "the data were changed")
            now = judge(m, data, rec, it > 0)
            if it == 0:
                rec.check(same(now[0], [1 / k] * k), f"initial weights {now[0]} are not equal")
            if it > 0 and scripted:
                want = em(*before, data)
                if want is not None and not rounded_off(before, now, want):
                    rec.check(same(now[0], want[0], 1e-7) and same(now[1], want[1], 1e-7), f"step {it}: weights {now[0]} and probabilities {now[1]}, expected {want}")
                    lb, ln = (sum(math.log(max(sum(likelihood(p, mu, s)), 1e-300)) for s in data) for p, mu in (before, now))
                    rec.check(ln >= lb - 1e-9, f"step {it}: the likelihood of the data fell from {lb} to {ln}")
            before = now
            rec.trace()
        rec.states_n(1)
    rec.sample({"components": k, "data": data, "initial values": values, "weights": now[0], "probabilities": now[1]})


def larger(job, rec):
    """more samples, bits, components and steps, started from spread initial values"""
    k, d, n, start = job
    base = [[(c * (j + 1) + j // 2) % 2 for j in range(d)] for c in range(k)]
    data = [tuple(b ^ ((7 * i + 3 * j * j) % 11 == 0) for j, b in enumerate(base[i % k])) for i in range(n)]
    values = [((3 * v + start) % 7 + 1) / 9 for v in range(k * d)]
    x, before = np.array(data), None
    for it in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 29, 30):
        rec.at({"components": k, "samples": n, "bits": d, "start": start, "steps": it})
        m, used = fit(x.copy(), k, it, values)
        pi, mu = m.pi.tolist(), m.mu.tolist()
        rec.check(same(sum(pi), 1) and min(pi) >= 0 and all(-1e-12 <= v <= 1 + 1e-12 for r in mu for v in r), f"no mixture: weights {pi}, probabilities {mu}")
        if it:
            rec.check(same([sum(p * r[j] for p, r in zip(pi, mu)) for j in range(d)], x.mean(axis=0), 1e-6), "the mixture's mean is not the mean of the data")
        if before and before[0] == it - 1 and used:
            want = em(*before[1:], data)
            if want is not None and not rounded_off(before[1:], (pi, mu), want):
                rec.check(same(pi, want[0], 1e-7) and same(mu, want[1], 1e-7), f"step {it} is not one of expectation maximisation")
        w = [likelihood(pi, mu, s) for s in data]
        lab, sc = m.predict(x), m.score_samples(x)
        rec.check(all(v[int(l)] >= max(v) * (1 - 1e-9) for v, l in zip(w, lab)), "a sample is not labelled with its likeliest component")
        rec.check(all(same(g, math.log(sum(v)), 1e-7) for v, g in zip(w, sc) if sum(v) > 1e-12) and same(m.score(x), np.mean(sc)), "scores differ")
        before = (it, pi, mu)
        rec.step()
        rec.trace()
        rec.state((job, it))


def log_shares(pi, mu, s):
    """per component log(weight * probability of s), None where it is zero"""
    out = []
    for p, row in zip(pi, mu):
        f = [p] + [m if b else 1 - m for m, b in zip(row, s)]
        out.append(math.fsum(math.log(v) for v in f) if min(f) > 0 else None)
    return out


def wide(job, rec):
    """as many bits as a telemetry buffer: shares underflow and components die; the mixture stays one and never gets worse"""
    k, d, n, start, lonely = job
    data = [tuple(((i % 3) * (j + 1) + j // 2) % 2 ^ ((5 * i + 3 * j * j) % 7 == 0) for j in range(d)) for i in range(n)]
    values = [((3 * v + v // 11 + start) % 7 + 1) / 9 for v in range(k * d)]
    if lonely:  # every sample lies next to the first component and out of reach of the others
        data = [tuple(int((j < d // 2) ^ ((5 * i + 3 * j * j) % 17 == i)) for j in range(d)) for i in range(n)]
        values = [(0.9 if (j < d // 2) == (c == 0) else 0.1) + (c * j + start) % 5 * 0.01 for c in range(k) for j in range(d)]
    x, before = np.array(data), None
    for it in (0, 1, 2, 3, 4, 5, 9):
        rec.at({"components": k, "samples": n, "bits": d, "start": start, "lonely": lonely, "steps": it})
        m, used = fit(x.copy(), k, it, values)
        pi, mu = m.pi.tolist(), m.mu.tolist()
        rec.check(same(sum(pi), 1) and min(pi) >= 0 and all(-1e-12 <= v <= 1 + 1e-12 for r in mu for v in r), f"no mixture: weights {pi}")
        rec.check(it == 0 or (before and before[1] == (pi, mu)) or same([sum(p * r[j] for p, r in zip(pi, mu)) for j in range(d)], x.mean(axis=0), 1e-6),
                  "the mixture's mean is not the mean of the data")
        lab, sc, logs = m.predict(x), m.score_samples(x), []
        for s, got, l in zip(data, sc, lab):
            w = log_shares(pi, mu, s)
            best = max((v for v in w if v is not None), default=None)
            logs.append(None if best is None else best + math.log(sum(math.exp(v - best) for v in w if v is not None)))
            if best is not None:
                rec.check(abs(got - logs[-1]) < 1e-7 * max(1, abs(got)), f"a sample scores {got}, expected {logs[-1]}")
                rec.check(w[int(l)] is not None and w[int(l)] > best - 1e-6, f"a sample is labelled {l}, log shares {w}")
            rec.step()
        total = None if None in logs else math.fsum(logs)
        if before and used and before[0] is not None:
            rec.check(total is None or total >= before[0] - 1e-6 * abs(before[0]), f"step {it}: the likelihood of the data fell from {before[0]} to {total}")
        before = (total, (pi, mu))
        rec.trace()
        rec.state((job, it))


def run(ctx):
    q = ctx.quick
    jobs = []
    for k, d, n, grid, steps in [(1, 2, 3, (0.1, 0.5, 0.9), 2), (2, 2, 3, (0.1, 0.5, 0.9), 3), (2, 3, 2, (0.2, 0.8), 2), (3, 2, 3, (0.2, 0.8), 2), (2, 1, 2, (0.2, 0.8), 1)] + \
            ([] if q else [(2, 2, 5, (0.1, 0.5, 0.9), 4), (3, 3, 3, (0.2, 0.8), 3), (2, 4, 3, (0.2, 0.8), 3)]):
        for size in range(1, n + 1):
            jobs += [(k, data, grid, steps) for data in itertools.combinations_with_replacement(list(itertools.product((0, 1), repeat=d)), size)]
    ctx.bounds = {"data": "all multisets of up to 3 (thorough 5) samples of 1 to 3 (4) bits", "components": "1..3", "initial values": "all points of a grid of 2 or 3 values per probability", "steps": "0..3 (4)",
                  "larger": "up to 60 samples of up to 12 bits, up to 4 components, 0..8, 12, 13, 29, 30 steps"}
    ctx.assumptions = ["single steps are judged where no sample is impossible and no component dies; elsewhere the invariants are"]
    ctx.explore("fits", explore, jobs)
    ctx.explore("wide", wide, [(k, d, n, st, lonely) for k in (1, 2, 3, 5) for d in (400, 1700, 3600) for n in (3, 7, 12) for st in range(1 if q else 5) for lonely in (False, True)])
    ctx.explore("larger", larger, [(k, d, n, st) for k in (1, 2, 3, 4) for d in (3, 6, 12) for n in (8, 25, 60) for st in range(3 if q else 7)])
