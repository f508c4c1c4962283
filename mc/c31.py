"""Isolation: objects of a class do not influence each other, callers' arrays are neither kept nor changed, answers given stay as they were."""
import itertools
import numpy as np
from decoders.classifiying_decoder import ClassifyingEntropyDecoder
from decoders.classifying_DUDE_decoder import ClassifyingDudeDecoder
from decoders.combined_decoder import CombinedDecoder
from decoders.combined_unified_decoder import CombinedUnifiedDecoder
from decoders.entropy_bitwise_decoder import EntropyBitwiseDecoder, EntropyBitwiseFlippingDecoder, EntropyBitwiseWeightedDecoder
from decoders.mavlink_decoder import MavlinkRectifyingDecoder
from decoders.turbo import TurboDecoder
from inference.buffer_segmentation import BufferSegmentation, BufferStructure
from inference.clustering import BufferClassifier
from inference.dude import OnlineDude, DUDE
from inference.entropy_mle import EMLE
from inference.statistical_models import BufferModel, FieldModel
from protocol_meta import dialect_meta
from mc import wire
from mc.core import jsonable
from mc.stub import SoftCode

F = [wire.frame(245, p, s, 1, 3) for p, s in ((b"\x0a\x14", 0), (b"\x0c\x15", 1), (b"\xf5\xeb", 2))]
MAG = [(3 * i % 7 + 2) / 4 for i in range(200)]


class Fn(SoftCode):
    """a code decoder whose answer is a function of what it is given; remembers what that was"""

    def decode(self, channel_word, max_iter=None):
        word = np.array(channel_word, dtype=float)
        hard = word < 0 if (word < 0).any() else word == 1
        self.script, self.given = [(None, bool(int(hard.sum()) % 3))], []
        self.asked = []
        out = self._answer(word, True)
        self.log.append(word.tolist())
        return out


def code(n, k):
    c = Fn(n, k)
    c.log = []
    return c


def freeze(x):
    """a value that later changes cannot reach"""
    return jsonable(x)


def bits(buf, n, flips=()):
    b = (wire.bits_of(buf) + [1, 0] * n)[:n]
    return [v ^ (i in flips) for i, v in enumerate(b)]


def soft(buf, n, flips=()):
    return [(1 - 2 * b) * MAG[(i + len(flips)) % 200] for i, b in enumerate(bits(buf, n, flips))]


# the third word is one the code decoder fails on at first
WORDS = [soft(F[0], 96), soft(F[2], 96, (12, 81)), soft(F[0], 96, (60, 61, 90)), soft(F[1], 96, (3, 49, 60))]
HARD = [bits(F[0], 96), bits(F[2], 96, (12, 81)), bits(F[0], 96, (60, 61, 90)), bits(F[1], 96, (3, 49, 60))]
SMALL = [(1.5, -2.0, 0.25, 1.0, -0.75), (-1.25, -0.5, 3.0, -1.0, 2.5), (0.5, 1.0, -1.5, -2.0, -0.125)]
CH, LOSS = np.array([[0.9, 0.1], [0.2, 0.8]]), np.array([[0.0, 1.0], [1.0, 0.0]])


def arr(v, dtype=float):
    return lambda: [np.array(v, dtype=dtype)]


def decoder(make, words, extra=lambda: [], n=96, k=88, dtype=float):
    """a decoder is observed by its answers and by what it gave the code decoder"""
    def new():
        c = code(n, k)
        return make(c), c

    def op(w):
        def call(obj, args):
            before = len(obj[1].log)
            out = obj[0].decode_buffer(*args)
            return out, freeze(obj[1].log[before:])
        return (lambda: [np.array(w, dtype=dtype)] + extra(), call)
    return new, [op(w) for w in words]


def plain(make, ops):
    """ops: (arguments, method or function)"""
    def wrap(m):
        return lambda obj, args: m(obj, args)
    return make, [(a, wrap(m)) for a, m in ops]


def err():
    return [np.array([3, 60], dtype=np.int_)]


SHARED_STRUCTURES = {}
GIVEN = {"overwrite": False}
DIST = [((i * 5 % 11) / 10, 1 - (i * 5 % 11) / 10) for i in range(100)]


def given(make, *args):
    """an object made from arrays of the caller, who may use these arrays for something else afterwards"""
    def new(*first):
        mine = [np.array(a) for a in args]
        before = freeze(mine)
        obj = make(*first, *mine)
        if GIVEN["overwrite"]:
            overwrite(mine)
        elif freeze(mine) != before:
            raise AssertionError("the arrays given at construction were changed")
        return obj
    return new


def with_structures(make):
    """all decoders of one exploration are given the same list of unknown structures"""
    def new(c):
        d = make(c)
        d.set_buffer_structures(SHARED_STRUCTURES["list"])
        return d
    return new


def subjects():
    s = {}
    mav = lambda c: MavlinkRectifyingDecoder(c, 80, 0.3, 0.2, 1, 2.0, 0.5, 3, True, 3, None, 1, 0.7, True, 2)
    comb = lambda c: CombinedDecoder(c, 80, 0.3, 0.2, 1, 2.0, 0.5, 0.95, 1.5, 3, True, 3, None, 1, 0.7)
    unif = lambda c: CombinedUnifiedDecoder(c, 80, 0.3, 0.2, 1, 2.0, 0.5, 0.95, 1.5, 3, True, 3, None, 1, 0.7)
    for name, m in (("field model decoder", mav), ("combined decoder", comb), ("unified decoder", unif)):
        s[name] = decoder(m, WORDS[:3], err)
        s[name + ", given structures"] = decoder(with_structures(m), WORDS[:3], err)
    s["entropy decoder"] = decoder(lambda c: ClassifyingEntropyDecoder(c, 3, 0.95, 1.5, 3, 1, 3, 1, 0.7, 0.05), SMALL, n=5, k=3)
    s["entropy decoder, clusters"] = decoder(lambda c: ClassifyingEntropyDecoder(c, 3, 0.95, 1.5, 2, 2, None, 1, 0.7), SMALL, n=5, k=3)
    s["denoising decoder"] = decoder(lambda c: ClassifyingDudeDecoder(c, 3, 1.5, 2, 1, 1, 1, 0.7, 0.1), SMALL, n=5, k=3)
    s["bitwise decoder"] = decoder(lambda c: EntropyBitwiseDecoder(c, 80, 0.95, 1.5, 1, 2), WORDS[:3])
    s["flipping decoder"] = decoder(lambda c: EntropyBitwiseFlippingDecoder(c, 80, 0.95, 1, 2), HARD[:3], dtype=np.int_)
    s["weighted decoder"] = decoder(lambda c: EntropyBitwiseWeightedDecoder(c, 80, 0.95, 1.5, 3, 1, 0.7, 2, 0.5, 1, "MLE", 0.05, True), WORDS[:3])
    s["turbo decoder"] = decoder(lambda c: TurboDecoder(ClassifyingEntropyDecoder(c, 3, 0.95, 1.5, 3, 1, 3, 1, 0.7), c, 2, True), SMALL, lambda: [np.array([0], dtype=np.int_)], n=5, k=3)
    s["entropy decoder, given model"] = decoder(given(lambda c, m: ClassifyingEntropyDecoder(c, 3, 0.95, 1.5, 3, 1, 3, 1, 0.7, 0.05, data_model=m), DIST[:3]), SMALL, n=5, k=3)
    s["bitwise decoder, given model"] = decoder(given(lambda c, m: EntropyBitwiseDecoder(c, 80, 0.95, 1.5, 1, 2, m), DIST[:80]), WORDS[:3])
    s["flipping decoder, given model"] = decoder(given(lambda c, m: EntropyBitwiseFlippingDecoder(c, 80, 0.95, 1, 2, m), DIST[:80]), HARD[:3], dtype=np.int_)
    st = {0: 245}
    s["field model"] = plain(lambda: FieldModel("f", "int16_t", 3), [
        (lambda: [[1, 5]], lambda o, a: o.add_sample(a[0])), (lambda: [7], lambda o, a: (o.add_sample(a[0]), o.mean, o.std)), (lambda: [], lambda o, a: ((o.mean, o.classify_value(4)) if o.samples else None, list(o.samples)))])
    s["buffer model"] = plain(lambda: BufferModel(window_size=2), [
        (arr(bits(F[0], 80), np.int_), lambda o, a: (o.add_buffer(a[0], st), o.model_size, sorted(o.fields_names()))), (arr(bits(F[2], 80), np.int_), lambda o, a: (o.add_buffer(a[0], st), o.predict(F[1], st))),
        (arr([50, 55, 70], np.int_), lambda o, a: (o.bitwise_model_mean(a[0], 10, st), o.predict(F[0], st)))])
    s["classifier"] = plain(lambda: BufferClassifier(3, 2), [(arr(v, np.int_), lambda o, a: (o.classify(a[0]), [(c.uid, len(c), c.dist) for c in o.clusters])) for v in ((0, 1, 0), (1, 1, 0), (1, 0, 1))])
    s["online denoiser"] = plain(given(lambda h, l: OnlineDude(h, l, 1), CH, LOSS), [(arr(v, np.int_), lambda o, a: o.denoise_sequence(a[0])) for v in ((0, 1, 0), (1, 1))] + [(lambda: [], lambda o, a: o.reset())])
    s["online denoiser, soft"] = plain(given(lambda h, l: OnlineDude(h, l, 1, False), CH, LOSS), [(arr(v, np.int_), lambda o, a: o.denoise_sequence(a[0])) for v in ((0, 1, 0), (1, 1), (0, 0, 0))])
    s["two pass denoiser"] = plain(given(lambda h, l: DUDE(h, l, 1), CH, LOSS), [(arr(v, np.int_), lambda o, a: o.denoise_sequence(a[0])) for v in ((0, 1, 0, 1, 1, 0), (1, 1, 1, 0, 1), (0, 0, 0, 1, 0, 0))])
    s["entropy denoiser"] = plain(lambda: EMLE(0.05, 0.95, 2, 1, 0.7), [(arr(v), lambda o, a: o.denoise_buffer(a[0])) for v in ((1.0, -0.5), (-2.0, -1.0))] + [(arr([(0.5, 0.5), (-1.0, 2.0)]), lambda o, a: o.denoise_sequence(a[0]))])
    s["entropy denoiser, in steps"] = plain(lambda: EMLE(0.05, 0.95, 2, 1, 0.7), [(arr((1, 0), np.int_), lambda o, a: o.update_model(a[0])), (arr((1, 1), np.int_), lambda o, a: o.update_model(a[0])), (arr((0.5, -1.0)), lambda o, a: o.predict(a[0]))])
    seg = lambda o, a: (o.segment_buffer(bytes(a[0])), str(o.get_buffer_structure(bytes(a[0]))), o.get_msg_fields(bytes(a[0])))
    s["segmentation"] = plain(lambda: BufferSegmentation(dialect_meta.protocol_parser), [(lambda b=b: [bytearray(b)], seg) for b in (F[0] + b"\x01", b"\xfe" + F[1], F[2][:-1] + b"\x00")])

    def reg(o, a):
        try:
            o.register_buffer(bytes(a[0]))
        except ValueError:
            return "refused"
        return o.reception_count, list(o.received_buffers), len(o)
    s["structure"] = plain(lambda: BufferStructure({0: 245}), [(lambda b=b: [bytearray(b)], reg) for b in (F[0], F[1], wire.frame(218, b"\x00" * 10, 1, 1, 1))])
    return s


def overwrite(args):
    """what a caller may do with its own arrays after a call"""
    for a in args:
        if isinstance(a, np.ndarray):
            a[...] = 1 - a if a.dtype != float else -7.5 * a - 3
        elif isinstance(a, list):
            a[:] = [99] * (len(a) + 1)
        elif isinstance(a, bytearray):
            a[:] = b"\xff" * len(a)


def scribble(x):
    """what a caller may do with an answer it was given"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = None if x.dtype == object else ~x if x.dtype == bool else 9 - 3 * x
    elif isinstance(x, (tuple, list, dict)):
        for y in x.values() if isinstance(x, dict) else x:
            scribble(y)
        if not isinstance(x, tuple):
            x.clear()


def one(obj, op, rec, spoil):
    args = op[0]()
    before = freeze(args)
    out = op[1](obj, args)
    rec.check(freeze(args) == before, "the caller's arguments were changed")
    if spoil:
        overwrite(args)
    rec.step()
    return out


def explore(job, rec):
    name, first, la, lb = job
    new, ops = subjects()[name]
    solo = {}

    def alone(hist):
        if hist not in solo:
            SHARED_STRUCTURES["list"] = [None]
            obj, outs = new(), []
            for i in hist:
                outs.append(freeze(one(obj, ops[i], rec, False)))
            solo[hist] = outs
        return solo[hist]
    for rest in itertools.product(range(len(ops)), repeat=la + lb - 1):
        hist = (first,) + rest
        a, b = hist[:la], hist[la:]
        want = {"A": alone(a), "B": alone(b)}
        for where in itertools.combinations(range(la + lb), la):
            rec.at({"object": name, "history of A": a, "history of B": b, "steps of A": where})
            SHARED_STRUCTURES["list"] = [None]
            objs, todo, outs = {"A": new(), "B": new()}, {"A": list(a), "B": list(b)}, []
            for t in range(la + lb):
                who = "A" if t in where else "B"
                out = one(objs[who], ops[todo[who].pop(0)], rec, True)
                got, k = freeze(out), len([1 for w, _, _ in outs if w == who])
                rec.check(got == want[who][k], f"call {k} of {who} answered {str(got)[:300]}, alone it answers {str(want[who][k])[:300]}")
                outs.append((who, out, got))
            for who, out, got in outs:
                rec.check(freeze(out) == got, f"an earlier answer of {who} changed afterwards")
            rec.check(SHARED_STRUCTURES["list"] == [None], "the caller's list of structures was changed")
            rec.trace()
            rec.states_n(1)
    rec.sample({"object": name, "history of A": a, "history of B": b, "interleavings": len(list(itertools.combinations(range(la + lb), la)))})


def answers(job, rec):
    """one object, all histories; whoever receives an answer uses its arrays, lists and dicts for something else"""
    name, first, length = job
    new, ops = subjects()[name]
    for rest in itertools.product(range(len(ops)), repeat=length - 1):
        hist = (first,) + rest
        rec.at({"object": name, "history": hist, "answers": "overwritten after each call"})
        outs = {}
        for use in (False, True):
            SHARED_STRUCTURES["list"], GIVEN["overwrite"] = [None], use
            try:
                obj = new()
            finally:
                GIVEN["overwrite"] = False
            for k, i in enumerate(hist):
                out = one(obj, ops[i], rec, use)
                got = freeze(out)
                if use:
                    rec.check(got == outs[k], f"call {k} answered {str(got)[:300]}, had its earlier answers not been overwritten by their receiver it answers {str(outs[k])[:300]}")
                    scribble(out)
                outs[k] = got
        rec.trace()
        rec.states_n(1)
    rec.sample({"object": name, "history": hist, "answers": "overwritten"})


def run(ctx):
    la, lb = (3, 2) if ctx.quick else (3, 3)
    names = subjects()
    ctx.bounds = {"objects": sorted(names), "histories": f"all pairs of {la} and {lb} calls out of 3, all interleavings"}
    ctx.assumptions = ["each decoder has a code decoder of its own, a function of what it is given"]
    n = 4 if ctx.quick else 6
    ctx.bounds["overwritten"] = f"all histories of {n} calls out of 3, every answer and every array given at construction overwritten"
    ctx.explore("answers", answers, [(m, f, n) for m in names for f in range(3)])
    ctx.explore("pairs", explore, [(n, f, la, lb) for n in names for f in range(3)])
