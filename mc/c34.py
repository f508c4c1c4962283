"""End to end: telemetry frames, the 802.11 code with its own decoder, a damaged channel word, and every decoder of the package."""
import copy
import copyreg
import functools
import itertools
import struct
import numpy as np
from ldpc.decoder import DecoderWiFi, bsc_llr
from ldpc.encoder import EncoderWiFi
from ldpc.wifi_spec_codes import WiFiSpecCode
from decoders.classifiying_decoder import ClassifyingEntropyDecoder
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder
from decoders.combined_decoder import CombinedDecoder
from decoders.combined_unified_decoder import CombinedUnifiedDecoder
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder, EntropyBitwiseWeightedDecoder
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
from decoders.turbo import TurboDecoder
from inference.buffer_segmentation import BufferSegmentation
from protocol_meta import dialect_meta
from mc import wire

SPEC = WiFiSpecCode.N648_R12
P = 0.02
N, K = 648, 324


def telemetry(kind, v):
    """40 bytes of frames: two kinds of buffer; v varies the sequence numbers and one field of each frame"""
    ids = (245, 35) if kind == 0 else (44, 74)
    body = [bytes((7 * i + 3 * m + (v if i == 1 else 0)) % 256 for i in range(wire.LENGTH[m])) for m in ids]
    out = b"".join(wire.frame(m, p, v, 1, 3) for m, p in zip(ids, body))
    assert len(out) == 40
    return out


def none():
    return []


def nothing():
    return [np.array([], dtype=np.int_)]


M = 320
SUBJECTS = {
    "entropy": (lambda c: ClassifyingEntropyDecoder(c, M, 0.36, 5, 4, 1, None, 3, 0.7, 0.02), 1, none, True),
    "entropy, window": (lambda c: ClassifyingEntropyDecoder(c, M, 0.36, 5, 4, 1, 3, 1, 0.7, 0), 1, none, True),
    "entropy, clusters": (lambda c: ClassifyingEntropyDecoder(c, M, 0.36, 5, 4, 2, 5, 2, 0.7, 0), 2, none, True),
    "denoising": (lambda c: ClassifyingDudeDecoder(c, M, 5, 4, 1, 1, 3, 0.7, 0.02), 1, none, True),
    "field models": (lambda c: MavlinkRectifyingDecoder(c, M, 0.03, 0.08, 1, 2.0, 0.7, 4, True, None, None, 3, 0.7), 1, nothing, True),
    "field models, window, twice": (lambda c: MavlinkRectifyingDecoder(c, M, 0.03, 0.08, 1, 2.0, 0.7, 4, True, 3, None, 1, 0.7, True, 2), 1, nothing, True),
    "field models, clusters": (lambda c: MavlinkRectifyingDecoder(c, M, 0.03, 0.08, 2, 2.0, 0.7, 4, True, 5, None, 3, 0.7), 2, nothing, True),
    "combined": (lambda c: CombinedDecoder(c, M, 0.03, 0.08, 1, 2.0, 0.7, 0.36, 5, 4, True, None, None, 3, 0.7), 1, nothing, True),
    "unified": (lambda c: CombinedUnifiedDecoder(c, M, 0.03, 0.08, 1, 2.0, 0.7, 0.36, 5, 4, True, 4, None, 3, 0.7), 1, nothing, True),
    "bitwise": (lambda c: EntropyBitwiseDecoder(c, M, 0.36, 5, 2, 3), 1, none, True),
    "flipping": (lambda c: EntropyBitwiseFlippingDecoder(c, M, 0.36, 2, 3), 1, none, False),
    "weighted": (lambda c: EntropyBitwiseWeightedDecoder(c, M, 0.36, 5, 3, 2, 0.7, 3, 0.7, 0, "MLE", 0.02, False), 1, none, True),
    "weighted, no window": (lambda c: EntropyBitwiseWeightedDecoder(c, M, 0.36, 5, None, 2, 0.7, 3, 0.7, 1, "MLE", 0.02, True), 1, none, True),
    "turbo": (lambda c: TurboDecoder(ClassifyingEntropyDecoder(c, M, 0.36, 5, 4, 1, None, 3, 0.7, 0.02), c, 2), 1, nothing, True),
}
copyreg.pickle(struct.Struct, lambda s: (struct.Struct, (s.format,)))


@functools.lru_cache(None)
def codeword(kind, v):
    b = wire.bits_of(telemetry(kind, v)) + [1, 0, 1, 0]
    return np.array(EncoderWiFi(SPEC).encode(np.array(b)), dtype=np.int_)


@functools.lru_cache(None)
def inner(soft, iterations=20):
    return DecoderWiFi(spec=SPEC, max_iter=iterations, channel_model=None if soft else bsc_llr(P))


def received(kind, v, flips, soft):
    x = codeword(kind, v).copy()
    x[list(flips)] ^= 1
    return bsc_llr(P)(x) if soft else x


class Link:
    """one decoder and what was sent over it"""

    def __init__(self, name, iterations=20):
        make, self.kinds, self.extra, self.soft = SUBJECTS[name]
        self.name, self.code = name, inner(self.soft, iterations)
        self.decoder = make(self.code)

    def fork(self):
        other = copy.copy(self)
        other.decoder = copy.deepcopy(self.decoder, {id(self.code): self.code})
        return other

    def receive(self, kind, v, flips, rec, must=True):
        word = received(kind, v, flips, self.soft)
        out = self.decoder.decode_buffer(word, *self.extra())
        est = np.asarray(out[0])
        rec.check(est.shape == (N,) and np.isin(est, (0, 1)).all(), f"estimate of shape {est.shape}")
        rec.check(bool(out[2]) == (not (self.code.h @ est % 2).any()), f"success reported as {bool(out[2])}, parity checks say otherwise")
        if must:
            wrong = np.flatnonzero(est != codeword(kind, v))
            rec.check(bool(out[2]) and wrong.size == 0, f"not recovered: success {bool(out[2])}, wrong bits {wrong.tolist()[:20]}")
            info = np.packbits(self.code.info_bits(est)).tobytes()[:40]
            rec.check(info == telemetry(kind, v), "information bytes differ")
        rec.step()
        return out


def warm(name, n, vs, rec, iterations=20):
    link = Link(name, iterations)
    for t in range(n):
        link.receive(t % link.kinds, vs[t // link.kinds % len(vs)], (), rec)
    return link


def singles(job, rec):
    name, n, vs, last, lo, hi = job
    rec.at({"decoder": name, "history": n, "values": vs})
    link = warm(name, n, vs, rec)
    for k in range(link.kinds):
        for i in range(lo, hi):
            rec.at({"decoder": name, "history": n, "values": vs, "kind": k, "value": last, "flipped": [i]})
            link.fork().receive(k, last, (i,), rec)
            rec.trace()
            rec.state((name, n, vs, last, k, i))
    rec.sample({"decoder": name, "history": n, "values": vs, "kind": k, "value": last, "flipped": [i]})


def histories(job, rec):
    """all short histories of values, clean, damaged and hopeless receptions: never a false claim of success, and
    unchanging telemetry with few errors is always recovered"""
    name, first, depth = job
    items = [(1, ()), (2, ()), (1, (4, 100, 333)), (2, (50, 51, 52, 53)), (1, tuple(range(3, 300, 2)))]
    for n in range(depth):
        for rest in itertools.product(range(len(items)), repeat=n):
            link, steady = Link(name), True
            hist = [items[i] for i in (first,) + rest]
            for t, (v, flips) in enumerate(hist):
                rec.at({"decoder": name, "history": [(v, len(f)) for v, f in hist[:t + 1]]})
                steady = steady and v == hist[0][0] and len(flips) < 100
                link.receive(t % link.kinds, v, flips, rec, must=steady)
            rec.trace()
            rec.state((name, first, rest))
    rec.sample({"decoder": name, "history": [(v, len(f)) for v, f in hist]})


CHANNEL_FIRST = ("bitwise", "flipping", "weighted", "weighted, no window")  # use the model only if the code alone fails


def bursts(job, rec):
    """unchanging telemetry, once learnt: a burst that the code alone may not survive"""
    name, n, length, starts = job
    rec.at({"decoder": name, "history": n})
    link = warm(name, n, (1,), rec)
    for k in range(link.kinds):
        for i in starts:
            rec.at({"decoder": name, "history": n, "kind": k, "flipped from": i, "length": length})
            flips = range(i, i + length)
            misled = False
            if name in CHANNEL_FIRST:
                alone = link.code.decode(received(k, 1, flips, link.soft))
                misled = alone[2] and (alone[0] != codeword(k, 1)).any()
            out = link.fork().receive(k, 1, flips, rec, must=not misled)
            if misled:
                rec.check((np.asarray(out[0]) == alone[0]).all(), "differs from the code alone, which succeeded")
            rec.trace()
            rec.state((name, n, k, i, length))
    rec.sample({"decoder": name, "history": n, "burst": length, "kind": k, "from": i})


def brief(job, rec):
    """a code decoder stopped early leaves words that fail a few parity checks only: never a false claim of success"""
    name, iterations, gaps, starts = job
    rec.at({"decoder": name, "iterations": iterations})
    for n in (0, 7 * SUBJECTS[name][1]):
        link = warm(name, n, (1, 2), rec, iterations)
        for i in starts:
            for gap in gaps:
                flips = sorted({i % N} | {(i + gap * j * j) % N for j in (1, 2, 3)}) if gap else [i % N]
                rec.at({"decoder": name, "iterations": iterations, "history": n, "flipped": flips})
                out = link.fork().receive(i % link.kinds, 3, flips, rec, must=False)
                rec.state((name, iterations, n, i, gap, bool(out[2])))
                rec.trace()
    rec.sample({"decoder": name, "iterations": iterations, "history": n, "flipped": flips})


def run(ctx):
    q = ctx.quick
    lengths = {"denoising": (8,)}
    block = 27
    jobs = [(name, n, (1, 2), last, lo, lo + block) for name in SUBJECTS for n in ((7,) if q else (0, 2, 7)) for last in ((1,) if q else (1, 2)) for lo in range(0, N, block)]
    jobs = [(a, n * SUBJECTS[a][1] + (0 if SUBJECTS[a][1] == 1 else 4), *r) for a, n, *r in jobs]
    brs = []
    for name in SUBJECTS:
        for length in lengths.get(name, (8, 64) if q else (8, 40, 80)):
            starts = list(range(0, M - length + 1, 8 if q else 1))
            for k in range(0, len(starts), 16):
                brs.append((name, 7 * SUBJECTS[name][1] + (0 if SUBJECTS[name][1] == 1 else 4), length, starts[k:k + 16]))
    depth = 1 if q else 2
    ctx.bounds = {"code": "802.11 N648 R1/2, belief propagation, 20 iterations; buffers of two frames, two kinds", "single errors": f"every one of the 648 bits, after learning two values, for the values learnt",
                  "bursts": f"lengths {'8, 64' if q else '8, 40, 80'} from every {'byte' if q else 'bit'} of the modelled part, after learning a constant value (denoising decoder: length 8)",
                  "histories": f"all of up to {depth + 1} receptions out of 5, clean, damaged and hopeless"}
    ctx.assumptions = ["binary symmetric channel with p 0.02", "the third party code's encoder and decoder work"]
    its, gaps, step, c = ((1, 2), (0, 7), 12, 2) if q else ((1, 2, 3), (0, 1, 7, 40), 1, 16)
    ctx.bounds["brief"] = f"code decoders of {its} iterations; single errors and groups of four errors at every {step} bits, gaps {gaps}, before and after learning"
    ctx.explore("brief", brief, [(name, it, gaps, list(range(lo, N, c * step))) for name in SUBJECTS for it in its for lo in range(0, c * step, step)])
    ctx.explore("bursts", bursts, brs)
    ctx.explore("singles", singles, jobs)
    ctx.explore("histories", histories, [(name, f, depth + 1) for name in SUBJECTS for f in range(5)])
