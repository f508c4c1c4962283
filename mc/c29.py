"""Markov source: every sample follows from exactly the preceding ones by the given transition probabilities."""
import itertools
import numpy as np
from utils.random_sources import generate_markov_samples


def deterministic(job, rec):
    """chains whose next state is certain: all of them, whatever the random generator"""
    k, order, n, first = job
    contexts = list(itertools.product(range(k), repeat=order))
    for rest in itertools.product(range(k), repeat=len(contexts) - 1):
        nxt = dict(zip(contexts, (first,) + rest))
        t = np.zeros((k,) * (order + 1))
        for c, s in nxt.items():
            t[c + (s,)] = 1.0
        for init in contexts:
            rec.at({"next state": {str(c): s for c, s in nxt.items()}, "initial": init, "samples": n})
            want = list(init)
            while len(want) < n:
                want.append(nxt[tuple(want[-order:])])
            for form in ([init, list(init), np.array(init)] + ([int(init[0])] if order == 1 else [])):
                got = generate_markov_samples(t.copy(), form, n)
                rec.check([int(x) for x in got] == want[:n], f"samples {np.asarray(got).tolist()}, expected {want}")
                rec.step()
            rec.trace()
            rec.states_n(1)
    rec.sample({"order": order, "states": k, "initial": init, "samples": want})


def branching(job, rec):
    """all random choices: the generator's choice is taken over and every possible outcome explored"""
    k, order, n, mi, init = job
    t = matrix(k, order, mi)
    seen, real = set(), np.random.choice
    todo = [()]
    while todo:
        prefix = todo.pop()
        made, asked = [], []

        def choice(a, size=None, replace=True, p=None):
            a = list(a) if np.ndim(a) else list(range(a))
            asked.append([float(x) for x in (p if p is not None else [1 / len(a)] * len(a))])
            made.append(prefix[len(made)] if len(made) < len(prefix) else next(s for s, x in zip(a, asked[-1]) if x > 0))
            return made[-1]
        np.random.choice = choice
        try:
            got = [int(x) for x in generate_markov_samples(t, init, n)]
        finally:
            np.random.choice = real
        rec.at({"transition matrix": t.tolist(), "initial": init, "choices": made, "samples": got})
        rec.check(len(got) == n and tuple(got[:order]) == tuple(init), "the initial state is not where the chain starts")
        for i in range(order, n):
            rec.check(t[tuple(got[i - order:i])][got[i]] > 0, f"sample {i} is an impossible transition")
            if made:
                rec.check(np.allclose(asked[i - order], t[tuple(got[i - order:i])]), f"sample {i} drawn from {asked[i - order]}")
                rec.check(got[i] == made[i - order], f"sample {i} is not the one drawn")
            rec.step()
        rec.trace()
        seen.add(tuple(got))
        for i in range(len(prefix), len(made)):
            for alt in range(made[i] + 1, k):
                if asked[i][alt] > 0:
                    todo.append(tuple(made[:i]) + (alt,))
    rec.states_n(len(seen))
    rec.sample({"order": order, "states": k, "samples": n, "distinct sequences": len(seen)})


def matrix(k, order, mi):
    t = np.zeros((k,) * (order + 1))
    for j, c in enumerate(itertools.product(range(k), repeat=order)):
        w = [((j + 1) * (s + 2) * (mi + 3)) % 7 for s in range(k)]
        if mi % 2 and sum(w) > w[j % k]:
            w[j % k] = 0
        if not sum(w):
            w[0] = 1
        t[c] = np.array(w) / sum(w)
    return t


def long_chain(job, rec):
    """permutation chains run for 2000 samples, and chains whose draws are taken over for 300"""
    k, order = job
    contexts = list(itertools.product(range(k), repeat=order))
    for mult in range(1, k + 1):
        t = np.zeros((k,) * (order + 1))
        nxt = {c: (c[0] + mult + sum(c) * (order > 1)) % k for c in contexts}
        for c, s in nxt.items():
            t[c + (s,)] = 1.0
        want = [i % k for i in range(order)]
        rec.at({"states": k, "order": order, "next": {str(c): s for c, s in nxt.items()}, "samples": 2000})
        got = [int(x) for x in generate_markov_samples(t, want[:] if order > 1 else want[0], 2000)]
        while len(want) < 2000:
            want.append(nxt[tuple(want[-order:])])
        bad = [i for i, (a, b) in enumerate(zip(got, want)) if a != b]
        rec.check(len(got) == 2000 and not bad, f"{len(got)} samples, wrong ones {bad[:5]}")
        rec.step(2000)
        rec.trace()
        rec.states_n(1)


def refusals(_, rec):
    t1, t2 = np.full((2, 2), 0.5), np.full((2, 2, 2), 0.5)
    for i, (t, init) in enumerate([(t1, [0, 1]), (t2, [0]), (t2, [0, 1, 0]), (t1, []), (np.full((2, 3), 1 / 3), [0]), (np.full((3, 2), 0.5), 0), (np.full((2, 3, 2), 0.5), [0, 0])]):
        rec.at({"shape": t.shape, "initial": init})
        try:
            generate_markov_samples(t, init, 5)
        except ValueError:
            pass
        else:
            rec.fail("inconsistent dimensions accepted")
        rec.step()
        rec.trace()
    rec.states_n(7)


def run(ctx):
    q = ctx.quick
    ctx.bounds = {"deterministic": "all chains: 2 and 3 states of order 1, 2 states of order 2 and 3" + ("" if q else ", 3 states of order 2"), "branching": f"all outcomes of {5 if q else 7} draws, 6 matrices per shape", "long": "2000 samples, up to 6 states, order up to 4"}
    ctx.assumptions = ["at least as many samples as the order", "probabilities of draws are judged where numpy.random.choice makes them"]
    ctx.explore("deterministic", deterministic, [(k, o, n, f) for k, o in ((2, 1), (3, 1), (2, 2), (2, 3)) + (() if q else ((3, 2),)) for n in ((o, o + 1, 7) if (k, o) != (3, 2) else (7,)) for f in range(k)])
    ctx.explore("branching", branching, [(k, o, o + ((5 if k == 2 else 4) if q else (7 if k == 2 else 6)), m, init) for k, o in ((2, 1), (3, 1), (2, 2)) for m in range(6) for init in itertools.product(range(k), repeat=o)])
    ctx.explore("long", long_chain, [(k, o) for k in (2, 3, 4, 6) for o in (1, 2, 3, 4) if k ** o < 300])
    ctx.explore("refusals", refusals, [0])
