"""Saving and loading a buffer model: the loaded model is the saved one, now and under every later operation."""
import itertools
import json
import os
import shutil
import tempfile
import math
from inference.statistical_models import BufferModel
from inference.buffer_segmentation import BufferSegmentation
from protocol_meta import dialect_meta as meta
from mc import wire
from mc.core import same, debruijn, REPO
from mc.bufmodel import RefModel, layout, values
from mc.c05 import vectors
from mc.c12 import compare, menu


def norm(desc):
    return None if desc is None else [d if isinstance(d, (str, bytes)) else tuple(d) for d in desc]


def twin(model, ref, probes, rec):
    """model agrees with the reference on everything observable"""
    rec.check(model.window_size == ref.window, f"window {model.window_size}, expected {ref.window}")
    for st, p in probes:
        compare(model, ref, [p], st, rec)


def cycle(model, path):
    model.save(path)
    return BufferModel.load(path)


def histories(job, rec):
    """every history of adds with a save and load after any step; everything after must not notice"""
    window, first, depth, mn, desc = job
    ops, probes = mn
    d = tempfile.mkdtemp(prefix="c13_")
    try:
        path = os.path.join(d, "m.json")
        for n in range(depth):
            for rest in itertools.product(list(range(len(ops))) + ["cycle"], repeat=n):
                hist = (first,) + rest
                if any(a == b == "cycle" for a, b in zip(hist, hist[1:])):
                    continue
                rec.at({"window": window, "history": hist})
                model, ref = BufferModel(window_size=window), RefModel(window)
                if desc:
                    model.set_buffer_description(list(desc))
                for k, i in enumerate(hist + ("cycle",)):
                    if i == "cycle":
                        old = model
                        model = cycle(old, path)
                        again = BufferModel.load(path)
                        rec.check(norm(model.get_buffer_description()) == norm(desc), f"description {model.get_buffer_description()}")
                        rec.check(model.ordered_field_names == old.ordered_field_names, "ordered names differ after loading")
                        twin(again, ref, probes[:1], rec)
                        twin(old, ref, probes[:1], rec)      # saving does not disturb the model
                        for name in ref.fields:
                            m, s = ref.fields[name].fit()
                            rec.check(same(model[name].mean, m) and same(model[name].std, s), f"{name} loaded with another fit")
                            rec.check(model[name].field_type == old[name].field_type and model[name].window_size == window and
                                      model[name].name == name and model[name].field_len == old[name].field_len and
                                      all(getattr(model[name], a, None) == getattr(old[name], a, None) for a in ("signed", "int_type")),
                                      f"{name} loaded as another kind of field")
                    else:
                        buf, st = ops[i]
                        model.add_buffer(buf, st)
                        ref.add_buffer(buf, st)
                    rec.step()
                twin(model, ref, probes, rec)
                rec.trace()
                rec.state((window, hist))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.sample({"window": window, "history": hist})


def every_message(mid, rec):
    d = tempfile.mkdtemp(prefix="c13_")
    try:
        path = os.path.join(d, "m.json")
        st = {0: mid}
        frames = [wire.frame(mid, wire.pack_payload(mid, v), k, 1, 3) for k, v in enumerate(itertools.islice(vectors(mid), 3))]
        model, ref = BufferModel(), RefModel()
        rec.at({"message": mid})
        desc = BufferSegmentation(meta.protocol_parser).get_msg_fields(frames[0])[1]
        model.set_buffer_description(desc)
        for f in frames[:2]:
            model.add_buffer(f, st)
            ref.add_buffer(f, st)
        model = cycle(model, path)
        rec.check(norm(model.get_buffer_description()) == norm(desc), "description differs after loading")
        twin(model, ref, [(st, frames[2])], rec)
        model.add_buffer(frames[2], st)
        ref.add_buffer(frames[2], st)
        twin(model, ref, [(st, frames[0])], rec)
        rec.step(4)
        rec.trace()
        rec.state(mid)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def empty(window, rec):
    d = tempfile.mkdtemp(prefix="c13_")
    try:
        rec.at({"window": window})
        model = cycle(BufferModel(window_size=window), os.path.join(d, "m.json"))
        ref = RefModel(window)
        twin(model, ref, [], rec)
        rec.check(model.get_buffer_description() is None and len(model) == 0, "an empty model gained something")
        ops, probes = menu()
        for i in (0, 1, 2, 0, 1):
            model.add_buffer(*ops[i])
            ref.add_buffer(*ops[i])
            rec.step()
        twin(model, ref, probes, rec)
        rec.trace()
        rec.state(window)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def descriptions(items, rec):
    """any sequence of headers, fields and checksums"""
    d = tempfile.mkdtemp(prefix="c13_")
    try:
        path = os.path.join(d, "m.json")
        for n in range(5):
            for desc in itertools.product(items, repeat=n):
                rec.at({"description": desc})
                model = BufferModel()
                model.set_buffer_description(list(desc))
                names = list(model.ordered_field_names)
                got = cycle(model, path)
                rec.check(norm(got.get_buffer_description()) == list(desc), f"loaded description {got.get_buffer_description()}")
                rec.check(norm(model.get_buffer_description()) == list(desc), "saving changed the description")
                rec.check(list(got.ordered_field_names) == names == [x[0] for x in desc if isinstance(x, tuple)], f"field names {got.ordered_field_names}")
                rec.step(2)
                rec.trace()
                rec.states_n(1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def long_history(job, rec):
    """a long life: saved and loaded again and again, large samples, every field of every operation"""
    window, every = job
    ops, probes = menu()
    d = tempfile.mkdtemp(prefix="c13_")
    try:
        path = os.path.join(d, "m.json")
        model, ref = BufferModel(window_size=window), RefModel(window)
        for t, i in enumerate(debruijn(len(ops), 3)):
            rec.at({"window": window, "loaded every": every, "step": t})
            model.add_buffer(*ops[i])
            ref.add_buffer(*ops[i])
            if (t + 1) % every == 0:
                model = cycle(model, path)
                twin(model, ref, probes[t % 3:t % 3 + 1], rec)
            rec.step()
            rec.state((job, t))
        twin(cycle(model, path), ref, probes, rec)
        rec.trace()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.sample({"window": window, "steps": t + 1})


SHIPPED = ["runs/Feb_2022/data/model_2022.json", "runs/Feb_2023/data/model_2023.json", "runs/HC_eilat_July_2018/data/model_2018_all.json", "scripts/model_2018_window_size_100.json"]


def shipped(path, rec):
    """the models that come with the package load as what their files say, also after being saved again, and judge buffers accordingly"""
    data = json.load(open(os.path.join(REPO, path)))
    ref = RefModel(data["window_size"])
    for name, f in data["field_models"].items():
        ref.add_sample(name, list(f["samples"]))
    fits = {name: r.fit() for name, r in ref.fields.items()}
    clear = {n for n, (m, s) in fits.items() if s > 1e-9 * max(abs(m), 1e-9) or len(set(ref.fields[n].samples)) == 1}
    names = {m["name"]: m["id"] for m in wire.TABLE}
    seen = sorted({names[n] for n in names if any(f.startswith(n + "_") for f in ref.fields)})
    rec.check(len(seen) > 2, "oracle", path)
    buf, structure = b"", {}
    for mid in seen:
        structure[len(buf)] = mid
        vals = []
        for field, idx, typ, _ in wire.elements(mid):
            f = ref.fields.get(f"{wire.MSG[mid]['name']}_{field}")
            vals.append(f.samples[len(f.samples) // 3] if f else 1)
        buf += wire.frame(mid, wire.pack_payload(mid, vals), 3, 1, 2)
    d = tempfile.mkdtemp(prefix="c13_")
    try:
        rec.at({"model": path})
        model = BufferModel.load(os.path.join(REPO, path))
        for again in range(2):
            rec.check(sorted(model.fields_names()) == sorted(ref.fields) and model.window_size == data["window_size"] and model.model_size == data.get("model_size"), "fields, window or size differ")
            for name in ref.fields:
                rec.check(list(model[name].samples) == ref.fields[name].samples, f"samples of {name} differ")
                rec.check(model[name].field_type == data["field_models"][name]["field_type"], f"type of {name}")
                rec.check(same(model[name].mean, fits[name][0]) and same(model[name].std, fits[name][1], 1e-6), f"mean or deviation of {name} differs")
            for at in range(len(buf)):
                for mask in (1, 16, 128, 0x5a) if again else (0x24,):
                    probe = buf[:at] + bytes([buf[at] ^ mask]) + buf[at + 1:]
                    rec.at({"model": path, "saved again": again, "buffer": probe})
                    got = model.predict(probe, structure)
                    for (name, p, sd), (_, typ, b, w), v in zip(got[0], layout(structure), values(probe, structure)):
                        if name not in clear or v != v or abs(v) == math.inf:
                            continue
                        m, s = fits[name]
                        want = ((1, 0) if v == m else (0, 0)) if s == 0 else (math.erfc(abs(m - v) / s / math.sqrt(2)), s)
                        rec.check(same((p, sd), want, 1e-6), f"{name}={v} judged {(p, sd)}, expected {want}")
                        rec.check(same(got[1][b:b + w], [want[0]] * w, 1e-6), f"bits of {name} judged {got[1][b:b + w]}")
                    rec.step()
                    rec.states_n(1)
            model = cycle(model, os.path.join(d, "m.json"))
        rec.trace()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    rec.sample({"model": path, "fields": len(fits), "buffer": len(buf)})


def run(ctx):
    depth = 3 if ctx.quick else 4
    mn = menu()
    desc = BufferSegmentation(meta.protocol_parser).get_msg_fields(mn[0][3][0])[1]
    ctx.bounds = {"histories": f"all of up to {depth} steps out of {len(mn[0])} buffers and save+load (and a final save+load), window none/1/2",
                  "messages": "all 155", "descriptions": "all sequences of up to 4 out of 6 kinds of entry",
                  "long": f"a history with every sequence of 3 out of {len(mn[0])} buffers, saved and loaded every 1, 7, 50 steps or at the end, window none/3/20/100"}
    ctx.assumptions = ["files are written completely (no crash model: the format has no crash guarantee)"]
    ctx.explore("histories", histories, [(w, f, depth, mn, d) for w in (None, 1, 2) for f in range(len(mn[0])) for d in (None, desc)])
    ctx.explore("descriptions", descriptions, [[b"\xfe\x09\x00\x01\x02\x00", b"\xfe", b"", ("HEARTBEAT_type", "uint8_t"), ("a", "float"), "crc"]])
    ctx.explore("every_message", every_message, wire.IDS)
    ctx.explore("empty", empty, [None, 1, 2, 3])
    ctx.bounds["shipped"] = "the four distinct models of the package, a buffer of their messages with every byte changed in 5 ways"
    ctx.explore("shipped", shipped, SHIPPED)
    ctx.explore("long", long_history, [(w, e) for w in (None, 3, 20, 100) for e in (1, 7, 50, 10 ** 6)])
