"""Buffer models: each bit and value goes to its own field, and what is said of a bit is what that field's model says."""
import itertools
import math
import numpy as np
from inference.statistical_models import BufferModel, FieldModel
from mc import flight, wire
from mc.core import same, exact, debruijn
from mc.bufmodel import RefModel, layout, values
from mc.c05 import vectors
from mc.c10 import want as wire_bits


def bits(b, dtype=np.int_):
    return np.array(wire.bits_of(b), dtype=dtype)


def structural(buf, structure, rec):
    """layout, values and error attribution of one buffer"""
    rec.at({"buffer": buf, "structure": structure})
    lay = layout(structure)
    n = len(buf)
    owner = [-1] * (8 * n)
    for k, (_, _, b, w) in enumerate(lay):
        owner[b:b + w] = [k] * w
    got, names, types = BufferModel.unpack_structure(True, n, structure)
    rec.check(list(names) == [l[0] for l in lay] and list(types) == [l[1] for l in lay], f"fields {list(zip(names, types))[:8]}... expected {lay[:8]}...")
    rec.check(list(got) == owner, f"bits attributed {list(got)[:80]}...")
    _, names, types = BufferModel.unpack_structure(False, n, structure)
    rec.check(list(names) == [l[0] for l in lay] and list(types) == [l[1] for l in lay], "fields differ without the bit map")
    want = values(buf, structure)
    for form in (buf, bits(buf), bits(buf, np.uint8)):
        rec.check(same(BufferModel.unpack_values(form, structure), want) and len(BufferModel.unpack_values(form, structure)) == len(lay),
                  "values unpacked differ")
    model = BufferModel()
    step = max(1, 8 * n // 97)
    for e in list(range(0, 8 * n, step)) + [8 * n, 8 * n + 5]:
        w = [(lay[owner[e]][0], owner[e])] if e < 8 * n and owner[e] >= 0 else []
        rec.check([tuple(x) for x in model.find_damaged_fields(np.array([e]), structure, n)] == w, f"error bit {e} attributed elsewhere than {w}")
    errs = np.array([8 * n + 2] + list(range(0, 8 * n, 3))[::-1])
    w = [(lay[owner[e]][0], owner[e]) for e in sorted(errs) if e < 8 * n and owner[e] >= 0]
    rec.check([tuple(x) for x in model.find_damaged_fields(errs, structure, n)] == w, "errors attributed to the wrong fields")
    rec.step(6)
    rec.trace()


def every_message(mid, rec):
    vecs = list(itertools.islice(vectors(mid), 4))
    for k, v in enumerate(vecs):
        f = wire.frame(mid, wire.pack_payload(mid, v), k, 9, 3)
        structural(f, {0: mid}, rec)
        structural(b"\xaa\x01" + f + b"\x77", {2: mid}, rec)
        g = wire.frame(30)
        structural(f + g, {0: mid, len(f): 30}, rec)
        structural(g + f + f, {36: mid, 36 + len(f): mid}, rec)
    rec.states_n(4 * len(vecs))
    rec.sample({"message": wire.MSG[mid]["name"], "elements": len(layout({0: mid})), "buffers": 4 * len(vecs)})
    # learn two, predict a third, for this message
    frames = [wire.frame(mid, wire.pack_payload(mid, v), k, 9, 3) for k, v in enumerate(vecs)]
    model, ref = BufferModel(), RefModel()
    for f in frames[:2]:
        model.add_buffer(f, {0: mid})
        ref.add_buffer(f, {0: mid})
        compare(model, ref, frames, {0: mid}, rec)
    model, ref = BufferModel(window_size=2), RefModel(2)
    for f in frames + frames[:1]:
        model.add_buffer(bits(f), {0: mid})
        ref.add_buffer(f, {0: mid})
    compare(model, ref, frames, {0: mid}, rec)


def compare(model, ref, probes, structure, rec, tol=1e-9):
    rec.check(model.model_size == ref.size, f"model size {model.model_size}, expected {ref.size}")
    rec.check(sorted(model.fields_names()) == sorted(ref.fields) and len(model) == len(ref.fields), "fields known differ")
    for name, r in ref.fields.items():
        rec.check(name in model and exact(model[name].samples, r.samples), f"samples of {name}: {model[name].samples}, expected {r.samples}")
        rec.check(model.get_field_model(name) is model[name], f"two models of {name}")
    rec.check("no such field" not in model and model.get_field_model("no such field") is None, "an unknown field has a model")
    for p in probes:
        fields, prob, std = ref.predict(p, structure)
        for form in (p, bits(p), np.append(bits(p), [1, 0, 1, 1, 0][:1 + len(p) % 5])):  # bits beyond the last byte belong to no field
            gf, gp, gs = model.predict(form, structure)
            rec.check([x[0] for x in gf] == [x[0] for x in fields], "predicted fields differ")
            for a, b in zip(gf, fields):
                rec.check(same(a[1:], b[1:], tol), f"{a[0]} predicted {a[1:]}, expected {b[1:]}")
            rec.check(same(gp, prob, tol) and same(gs, std, tol), "bit probabilities are not those of their fields")
        rec.step()
    # mean bits
    if not probes:
        return
    n = len(probes[0])
    mean, known = [0] * (8 * n), [True] * (8 * n)
    for name, typ, b, w in layout(structure):
        if name in ref.fields:
            m, _ = ref.fields[name].fit()
            if math.isnan(m):
                return
            ok = m == int(m) if typ == "float" else abs(m - math.floor(m) - 0.5) > 1e-9
            if typ in ("uint64_t", "int64_t") and abs(m) > 2 ** 50:
                ok = False
            mean[b:b + w], known[b:b + w] = wire_bits(m if typ == "float" else round(m), typ), [ok] * w
    for idx in (np.arange(8 * n), np.arange(8 * n)[::-3], np.array([0, 8 * n - 1, 5], dtype=np.int_), np.array([], dtype=np.int_)):
        got = model.bitwise_model_mean(idx, n, structure)
        rec.check(len(got) == len(idx) and all(g == mean[i] for g, i in zip(got, idx) if known[i]), "bits of the mean differ")
    rec.step()


def histories(job, rec):
    """every history of buffers of two structures and single samples"""
    window, first, depth, menu = job
    ops, structures = menu
    for n in range(depth):
        for rest in itertools.product(range(len(ops)), repeat=n):
            hist = (first,) + rest
            rec.at({"window": window, "history": hist})
            model, ref = BufferModel(window_size=window), RefModel(window)
            for k, i in enumerate(hist):
                buf, st = ops[i]
                model.add_buffer(buf if k % 2 else bits(buf), st)
                ref.add_buffer(buf, st)
                rec.step()
            compare(model, ref, [structures[0][1]], structures[0][0], rec)
            compare(model, ref, [structures[1][1]], structures[1][0], rec)
            rec.trace()
            rec.state((window, hist))
    rec.sample({"window": window, "history": hist, "fields": len(ref.fields)})


def every_order(job, rec):
    """one history that contains every sequence of three buffers"""
    window, (ops, structures) = job
    model, ref = BufferModel(window_size=window), RefModel(window)
    for t, i in enumerate(debruijn(len(ops), 3)):
        buf, st = ops[i]
        rec.at({"window": window, "step": t, "buffer": i})
        model.add_buffer(buf if t % 2 else bits(buf), st)
        ref.add_buffer(buf, st)
        rec.step()
        if t % 4 == 0 or t > 120:
            compare(model, ref, [structures[t % 2][1]], structures[t % 2][0], rec)
        rec.state((window, t, "every"))
    rec.trace()


def alike(job, rec):
    """buffers that differ in nothing but the kind of message, or the length, judged in turn by one model"""
    ids, window = job
    model, ref = BufferModel(window_size=window), RefModel(window)
    pool = []
    for k, mid in enumerate(ids):
        for tail in (b"", b"\x21\x43") if k < 2 else (b"",):
            for v in itertools.islice(vectors(mid), 2):
                pool.append((wire.frame(mid, wire.pack_payload(mid, v), 3 * k, 9, 3) + tail, {0: mid}))
            pool.append((tail + pool[-1][0][:len(pool[-1][0]) - len(tail)], {len(tail): mid}))
    for t, i in enumerate(debruijn(len(pool), 2) if len(pool) < 12 else list(range(len(pool))) * 2):
        rec.at({"messages": [wire.MSG[m]["name"] for m in ids], "window": window, "step": t})
        buf, st = pool[i]
        model.add_buffer(buf if t % 2 else bits(buf), st)
        ref.add_buffer(buf, st)
        rec.step()
        for d in (0, 1, 3):
            b, s = pool[(i + d * (t % 5 + 1)) % len(pool)]
            compare(model, ref, [b], s, rec)
        rec.state((job, t))
    rec.trace()
    rec.sample({"messages": [wire.MSG[m]["name"] for m in ids], "buffers": t + 1})


def alike_jobs(q):
    groups = {}
    for mid in sorted(wire.IDS):
        groups.setdefault(len(wire.frame(mid)), []).append(mid)
    out = []
    for g in groups.values():
        if len(g) > 1:
            out += [((a, b), (None, 2)[i % 2]) for i, (a, b) in enumerate(zip(g, g[1:]))] if len(g) <= 3 or not q else [(tuple(g[:2]), None), (tuple(g[-2:]), 2)]
            out.append((tuple(g[:6]), 3))
    return out


def recorded(job, rec):
    """a recorded flight: all buffers learnt in turn, judged every now and then"""
    window, every, damaged = job
    model, ref = BufferModel(window_size=window), RefModel(window)
    for t, b in enumerate(flight.BUFFERS):
        if damaged and t % damaged == 1:
            x = bytearray(b)
            for i in flight.errors(t, 1224, 3):
                x[i // 8] ^= 128 >> i % 8
            b = bytes(x)
        rec.at({"window": window, "buffer": t})
        model.add_buffer(b if t % 2 else bits(b), flight.STRUCTURE)
        ref.add_buffer(b, flight.STRUCTURE)
        rec.step()
        if t % every == every - 1 or t < 5:
            compare(model, ref, [flight.BUFFERS[(t + 1) % 895]], flight.STRUCTURE, rec, tol=1e-6)
        rec.state((job, t))
    rec.trace()
    rec.sample({"window": window, "buffers": t + 1, "fields": len(ref.fields)})


def menu():
    def f(mid, pay, seq, sysid=1):
        return wire.frame(mid, pay, seq, sysid, 2)
    hb = [bytes((k, 0, 0, 0, 1, 2, k, 4, 3)) for k in (0, 5, 200)]
    inf = wire.pack_payload(30, [7, 0.5, math.inf, 1.0, -0.25, 2.0, 0.0])
    nan = wire.pack_payload(30, [9, 0.5, math.nan, 1.0, -0.25, 2.5, 3.0])
    s1, s2, s3 = {0: 0}, {0: 0, 17: 0}, {0: 30, 36: 0}
    ops = [(f(0, hb[0], 0), s1), (f(0, hb[1], 1, 7), s1), (f(0, hb[2], 250) + f(0, hb[0], 251), s2),
           (f(30, inf, 3) + f(0, hb[1], 4), s3), (f(30, nan, 9) + f(0, hb[2], 10), s3)]
    return ops, [(s2, ops[2][0]), (s3, ops[3][0])]


def container(first, rec):
    """the model as a collection of field models: every sequence of up to four insertions"""
    names = ("a", "b")
    ops = [("add", n, v) for n in names for v in (1, 5)] + [("set", n, t) for n in names for t in ("uint8_t", "float")]
    for given in (None, (), ("a",), ("b", "c")):
        for n in range(4):
            for rest in itertools.product(range(len(ops)), repeat=n):
                hist = (first,) + rest
                if n == 3 and given is not None:
                    continue
                rec.at({"given": given, "history": hist})
                start = None if given is None else {x: FieldModel(x, "int8_t", None) for x in given}
                model = BufferModel(start, 2) if given is not None else BufferModel(window_size=2)
                ref = {} if start is None else dict(start)
                held = {k: [] for k in ref}
                for i in hist:
                    what, name, v = ops[i]
                    if what == "add":
                        model.add_sample(name, v, "uint8_t")
                        if name not in ref:
                            ref[name], held[name] = None, []
                        held[name] = held[name] + [v]
                        if ref[name] is None or ref[name].window_size:
                            held[name] = held[name][-2:]
                    else:
                        ref[name] = model[name] = FieldModel(name, v, 2)
                        held[name] = []
                rec.check(len(model) == len(ref) and sorted(model.fields_names()) == sorted(ref) and sorted(m.name for m in model) == sorted(ref), "fields known differ")
                for name in ("a", "b", "c"):
                    rec.check((name in model) == (name in ref), f"{name}: known {name in model}")
                    if name in ref:
                        rec.check(list(model[name].samples) == held[name] and (ref[name] is None or model[name] is ref[name]), f"{name} holds {model[name].samples}, expected {held[name]}")
                rec.step(len(hist))
                rec.trace()
                rec.states_n(1)
    m = BufferModel()
    for d in (["magic", b"\x01"], [("b", 1)], [], [("a", 1), "x", ("b", 2)], [("c", 1), ("a", 2)]):
        m.set_buffer_description(d)
        rec.check(list(m.ordered_field_names) == [x[0] for x in d if isinstance(x, tuple)], f"ordered fields are {m.ordered_field_names}")
        rec.check(m.get_buffer_description() == d, "the description given is not the one returned")


def misuse(_, rec):
    m = BufferModel()
    for bad in ("text", 7, None, [1, 0] * 8, bytearray(17)):
        for f in (lambda: m.add_buffer(bad, {0: 0}), lambda: m.predict(bad, {0: 0}), lambda: BufferModel.unpack_values(bad, {0: 0})):
            try:
                f()
            except ValueError:
                pass
            else:
                rec.fail(f"buffer of type {type(bad).__name__} accepted", {"buffer": repr(bad)})
            rec.step()
        rec.check(m.model_size == 0 and len(m) == 0, "a refused buffer changed the model")
    rec.trace()
    rec.states_n(5)


def run(ctx):
    depth = 3 if ctx.quick else 5
    mn = menu()
    ctx.bounds = {"layout": "all 155 messages, alone, shifted and next to others; every bit position (up to 97 per buffer) attributed",
                  "histories": f"all of up to {depth} buffers out of {len(mn[0])}, window none/1/2; one of 127 with every three in a row, windows up to 100"}
    ctx.explore("every_message", every_message, sorted(wire.IDS, key=lambda m: -len(wire.elements(m))))
    ctx.explore("histories", histories, [(w, f, depth, mn) for w in (None, 1, 2) for f in range(len(mn[0]))])
    ctx.explore("every order", every_order, [(w, mn) for w in (None, 1, 3, 20, 100)])
    ctx.bounds["alike"] = "messages of equal length, in pairs and up to six together, in one model: frames alone, shifted and followed by other bytes, judged in turn"
    ctx.explore("alike", alike, alike_jobs(ctx.quick))
    ctx.bounds["recorded"] = "895 buffers of a flight, intact or damaged, window none/2/50/200, judged every 20 to 100 buffers"
    ctx.explore("recorded", recorded, [(None, 100, 0), (None, 100, 3), (2, 20, 0), (50, 20, 0), (50, 50, 3), (200, 100, 0)])
    ctx.bounds["container"] = "all sequences of up to 4 insertions out of 8, started empty or with given field models"
    ctx.explore("container", container, list(range(8)))
    ctx.explore("misuse", misuse, [0])
