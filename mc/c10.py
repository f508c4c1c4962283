"""Bit representation of field values: the wire bytes of the nearest representable value, most significant bit first."""
import struct
import numpy as np
from inference.statistical_models import num2bits, FieldModel
from mc import wire
from mc.c05 import RANGE

INTS = ["uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t"]


def want(v, typ):
    if typ != "float":
        lo, hi = RANGE[typ] if typ != "char" else (0, 255)
        v = min(max(v, lo), hi)
    return wire.bits_of(struct.pack("<" + wire.FMT[typ], v))


def verify(v, exact, typ, rec):
    rec.at({"value": repr(v), "type": typ})
    got = num2bits(v, typ)
    if np.asarray(got).tolist() != want(exact, typ):
        rec.fail(f"{v!r} as {typ} gives {np.asarray(got).tolist()}, the wire has {want(exact, typ)}")
    rec.step()
    rec.trace()


def whole(job, rec):
    typ, lo, hi = job
    for v in range(lo, hi):
        verify(v, v, typ, rec)
        for d in (-0.375, 0.375):
            verify(v + d, v, typ, rec)
        if (v & 0xFF) in (0, 1, 127, 128, 255):
            verify(float(v), v, typ, rec)
            verify(np.float64(v), v, typ, rec)
            verify(np.int64(v), v, typ, rec)
    rec.states_n((hi - lo) * 3)


def edges(typ, rec):
    lo, hi = RANGE[typ]
    n = wire.SIZES[typ] * 8
    vals = {lo, lo + 1, hi, hi - 1, 0, 1, -1, hi + 1, lo - 1, 2 * hi + 7, lo - hi - 5, 3 ** 50, -3 ** 50}
    vals |= {s * (2 ** k + d) for k in range(n + 2) for d in (-1, 0, 1) for s in (1, -1)}
    vals |= {s * (0x0123456789ABCDEF >> k) for k in range(0, 60, 3) for s in (1, -1)}
    for v in sorted(vals):
        verify(v, v, typ, rec)
        f = float(v)
        verify(f, int(f), typ, rec)
        verify(np.float64(f), int(f), typ, rec)
        if abs(v) < 2 ** 50:
            verify(v + 0.25, v, typ, rec)
            verify(v - 0.25, v, typ, rec)
        rec.state((typ, v))
        # a model that holds one value has that value's bits as its mean
        if lo <= v <= hi and abs(v) < 2 ** 50:
            m = FieldModel("x", typ)
            m.add_sample(v)
            rec.check(np.asarray(m.bitwise_mean()).tolist() == want(v, typ), f"mean bits of a model of {v} ({typ}) differ")
    rec.sample({"type": typ, "values": len(vals)})


def floats(e, rec):
    for s in (1, -1):
        for m in range(0, 8388608, 65521):
            bits = (0 if s > 0 else 1) << 31 | e << 23 | m
            v, = struct.unpack("<f", struct.pack("<I", bits))
            if e == 255 and m:
                continue
            verify(v, v, "float", rec)
            if e < 250:
                verify(np.float64(v), v, "float", rec)
            rec.state(bits)


def chars(typ, rec):
    for c in range(256):
        for v in (c, float(c), chr(c), bytes([c]), np.float64(c)):
            verify(v, c, "char", rec)
        if c > 0:
            verify(c + 0.25, c, "char", rec)
            verify(c - 0.25, c, "char", rec)
        rec.state(c)
    for bad in ("double", "", "uint128", "bool", "string", "Float", "unsigned"):
        for f in (lambda: num2bits(1, bad), lambda: FieldModel("x", bad)):
            try:
                f()
            except (ValueError, KeyError):
                rec.step()
                rec.trace()
                continue
            rec.fail(f"field type {bad!r} accepted", {"type": bad})


def run(ctx):
    ctx.bounds = {"8 and 16 bit types": "all values and a margin outside, each also 3/8 above and below", "32 and 64 bit":
                  "every power of two, its neighbours, limits and beyond, as int, float and numpy", "float": ("every third exponent" if ctx.quick else "all exponents") + " x 129 mantissas x sign",
                  "char": "all 256 in 5 forms"}
    jobs = []
    for typ in INTS[:4]:
        lo, hi = RANGE[typ]
        lo, hi = lo - 300, hi + 301
        jobs += [(typ, a, min(a + 4096, hi)) for a in range(lo, hi, 4096)]
    ctx.explore("whole", whole, jobs)
    ctx.explore("edges", edges, INTS)
    ctx.explore("floats", floats, range(256) if not ctx.quick else range(0, 256, 3))
    ctx.explore("chars", chars, ["char"])
