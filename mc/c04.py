"""Hamming distance: number of differing bits, whatever the representations; anything else is refused."""
import itertools
import numpy as np
from bitstring import Bits
from utils.bit_operations import hamming_distance
from mc import wire


def reps(bits):
    """every accepted representation of these bits, with the uint_len an integer needs"""
    n = len(bits)
    text = "".join(map(str, bits))
    out = [Bits(bin=text), np.array(bits, dtype=np.int_), np.array(bits, dtype=np.uint8), np.array(bits, dtype=bool)]
    if n:
        out.append(int(text, 2))
    if n % 8 == 0 and n:
        out.append(int(text, 2).to_bytes(n // 8, "big"))
    return out


def small(job, rec):
    """all pairs of equally long strings, in every pair of representations"""
    n, first = job
    for rest in itertools.product((0, 1), repeat=max(n - 2, 0)):
        a = (first + rest)[:n]
        ra = reps(a)
        for b in itertools.product((0, 1), repeat=n):
            want = sum(x != y for x, y in zip(a, b))
            for x, y in itertools.product(ra, reps(b)):
                rec.at({"a": repr(x), "b": repr(y), "uint_len": n})
                got = hamming_distance(x, y, n) if n != 8 else hamming_distance(x, y)
                if got != want or not isinstance(got, int):
                    rec.fail(f"distance of {x!r} and {y!r} is {got!r}, not {want}")
                rec.step()
                rec.trace()
        rec.states_n(2 ** n)


def byte_pairs(a, rec):
    for b in range(256):
        want = bin(a ^ b).count("1")
        rec.at({"a": a, "b": b})
        for x, y in ((a, b), (bytes([a]), bytes([b])), (a, bytes([b])), (bytes([a]), b)):
            rec.check(hamming_distance(x, y) == want, f"distance of {x!r} and {y!r} is not {want}")
            rec.step()
            rec.trace()
    rec.states_n(256)


def long(n, rec):
    """long strings: every number of leading differing bits"""
    zero = np.zeros(n, dtype=np.uint8)
    for k in range(n + 1):
        a = zero.copy()
        a[:k] = 1
        rec.at({"bits": n, "differing": k})
        rec.check(hamming_distance(a, zero) == k, f"{k} of {n} differing bits counted as {hamming_distance(a, zero)}")
        rec.check(hamming_distance(Bits(a), Bits(bytes=bytes((n + 7) // 8))[:n]) == k, f"{k} of {n} differing bits miscounted")
        if n % 8 == 0:
            x, y = np.packbits(a).tobytes(), bytes(n // 8)
            rec.check(hamming_distance(x, y) == k and hamming_distance(y, x) == k, f"{k} of {n} bits, bytes: miscounted")
            rec.check(hamming_distance(int.from_bytes(x, "big"), y, n) == k, f"{k} of {n} bits, integer: miscounted")
        rec.step(2)
        rec.trace()
        rec.state((n, k))
    rec.sample({"bits": n, "differing": f"0..{n}"})


def refuse(job, rec):
    """unsupported types give TypeError; strings of different length have no distance"""
    what, = job
    good = [Bits(bin="10110010"), b"\xb2", 178, np.array([1, 0, 1, 1, 0, 0, 1, 0])]
    if what == "type":
        for g in good:
            for bad in ("10110010", None, 3.5, [1, 0], (1, 0), {1}, object()):
                for x, y in ((g, bad), (bad, g), (bad, bad)):
                    rec.at({"a": repr(x)[:40], "b": repr(y)[:40]})
                    try:
                        d = hamming_distance(x, y)
                        rec.fail(f"distance of {x!r} and {y!r} given as {d}")
                    except TypeError:
                        pass
                    rec.step()
                    rec.trace()
        rec.states_n(len(good) * 7)
        return
    for n, m in itertools.product(range(0, 25), repeat=2):
        if n == m:
            continue
        for x in (reps((1,) * n) if n else [Bits(), np.array([], dtype=np.int_)]):
            for y in (reps((1,) * m) if m else [Bits(), np.array([], dtype=np.int_)]):
                if isinstance(x, int) or isinstance(y, int):
                    continue
                try:
                    d = hamming_distance(x, y)
                except Exception:
                    d = None
                rec.check(d is None, f"strings of {n} and {m} bits have distance {d}", {"a": repr(x), "b": repr(y)})
                rec.step()
                rec.trace()
        rec.state(("len", n, m))
    for bad, n in ((256, 8), (-1, 8), (2, 1), (1 << 16, 16), (-128, 8)):
        try:
            d = hamming_distance(bad, 0, n)
        except Exception:
            d = None
        rec.check(d is None, f"{bad} as {n} bits has distance {d} to 0", {"a": bad, "uint_len": n})
        rec.step()
        rec.trace()


def run(ctx):
    top = 6 if ctx.quick else 8
    ctx.bounds = {"strings": f"all pairs up to {top} bits in all pairs of 4-6 representations", "bytes": "all 65536 pairs, 4 ways",
                  "long": "255..257, 504..520, 2048 bits, every count of differing bits", "refused": "7 wrong types, lengths 0..24"}
    ctx.explore("small", small, [(n, f) for n in range(1, top + 1) for f in itertools.product((0, 1), repeat=min(n, 2))])
    ctx.explore("bytes", byte_pairs, range(256))
    ctx.explore("long", long, [255, 256, 257, 504, 512, 520] + ([] if ctx.quick else [2048, 4096]))
    ctx.explore("refuse", refuse, [("type",), ("length",)])
