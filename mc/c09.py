"""Listing the fields of a buffer: every field of every frame, with its name, value and type, in wire order."""
import itertools
import math
from inference.buffer_segmentation import BufferSegmentation
from protocol_meta import dialect_meta as meta
from mc import flight, msgobj, wire
from mc.c05 import vectors


def expected(msgs):
    """msgs: list of (msg_id, element values, header) in buffer order"""
    fields, desc = {}, []
    for mid, vals, header in msgs:
        m, k = wire.MSG[mid], 0
        desc.append(header)
        for name, typ, arr in m["wire"]:
            chunk = vals[k:k + max(arr, 1)]
            k += max(arr, 1)
            v = bytes(chunk).decode("latin1").split("\0")[0] if typ == "char" and arr else (chunk if arr else chunk[0])
            fields[f"{m['name']}_{name}"] = (v, typ)
            desc.append((f"{m['name']}_{name}", typ))
        desc.append("crc")
    return fields, desc


def eq(a, b):
    if isinstance(b, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b or (isinstance(b, float) and math.isnan(b) and a != a)


def verify(buf, msgs, rec):
    rec.at({"buffer": buf})
    got, desc = BufferSegmentation(meta.protocol_parser).get_msg_fields(buf)
    want, wdesc = expected(msgs)
    rec.check(list(got) == list(want), f"fields {list(got)[:6]}..., expected {list(want)[:6]}...")
    for k in want:
        rec.check(eq(got[k][0], want[k][0]) and got[k][1] == want[k][1] and len(got[k]) == 2, f"{k} listed as {got[k]}, is {want[k]}")
    rec.check([x if isinstance(x, str) else bytes(x) if isinstance(x, (bytes, bytearray)) else tuple(x) for x in desc] == wdesc,
              f"description {desc}, expected {wdesc}")
    rec.step()
    rec.trace()


def single(mid, rec):
    for n, vals in enumerate(itertools.chain(vectors(mid), msgobj.special_vectors(wire.MSG[mid], next(vectors(mid))))):
        f = wire.frame(mid, wire.pack_payload(mid, vals), n % 256, 255 - n % 200, n % 7)
        verify(f, [(mid, vals, f[:6])], rec)
        rec.state((mid, n))
    g = b"\xfe\x00\x01" + f + b"\xfe"
    verify(g, [(mid, vals, f[:6])], rec)
    rec.sample({"message": wire.MSG[mid]["name"], "vectors": n + 1})


def pairs(job, rec):
    """every sequence of up to three frames, of which some may be damaged (and must then not be listed)"""
    a, others, depth = job
    vec = {m: list(itertools.islice(vectors(m), 3)) for m in others + [a]}
    for n in range(depth):
        for rest in itertools.product([(m, ok) for m in others for ok in (1, 0)], repeat=n):
            seq = ((a, 1),) + rest
            buf, msgs = b"", []
            for k, (mid, ok) in enumerate(seq):
                vals = vec[mid][k % len(vec[mid])]
                f = wire.frame(mid, wire.pack_payload(mid, vals), k, 1, 2)
                if ok:
                    msgs.append((mid, vals, f[:6]))
                else:
                    f = f[:-1] + bytes([f[-1] ^ 4])
                buf += f
            rec.check(list(wire.segment(buf)[1].values()) == [m[0] for m in msgs], "oracle", {"buffer": buf})
            verify(buf, msgs, rec)
            rec.state(seq)


def long_buffer(job, rec):
    """every message of the dialect in one buffer, some of them several times, some damaged"""
    first, step, damage = job
    buf, msgs = b"", []
    for k, mid in enumerate((wire.IDS * 2)[first::step]):
        vals = list(itertools.islice(vectors(mid), 2))[k % 2 if k > 150 else 0]
        f = wire.frame(mid, wire.pack_payload(mid, vals), k % 256, 3, k % 5)
        if damage and k % damage == 2:
            f = f[:-1] + bytes([f[-1] ^ 4])
        buf += f
    for at, mid in wire.segment(buf)[1].items():
        n = wire.LENGTH[mid]
        vals = wire.unpack_payload(mid, buf[at + 6:at + 6 + n])
        msgs.append((mid, vals, buf[at:at + 6]))
    verify(buf, msgs, rec)
    rec.state(job)
    rec.sample({"bytes": len(buf), "messages": len(msgs)})


def recorded(first, rec):
    """every buffer of a recorded flight, whole and with one message damaged"""
    for t, b in enumerate(flight.BUFFERS[first::8]):
        for bad in (None, (37 * t + first) % 1224):
            x = bytearray(b)
            if bad is not None:
                x[bad // 8] ^= 128 >> bad % 8
            x = bytes(x)
            verify(x, [(mid, wire.unpack_payload(mid, x[at + 6:at + 6 + wire.LENGTH[mid]]), x[at:at + 6]) for at, mid in wire.segment(x)[1].items()], rec)
            rec.state(x)


def nothing(n, rec):
    for buf in (bytes(n), b"\xfe" * n, wire.frame(0)[:-1][:n], wire.frame(0)[1:][:n]):
        rec.at({"buffer": buf})
        got = BufferSegmentation(meta.protocol_parser).get_msg_fields(buf)
        rec.check(len(got) == 2 and len(got[0]) == 0 and len(got[1]) == 0, f"fields listed for a buffer without messages: {got}")
        rec.step()
        rec.trace()
        rec.state(buf)


def run(ctx):
    others = [0, 30, 212, 147, 234] if ctx.quick else [0, 30, 212, 147, 234, 253, 245, 33, 218]
    depth = 3 if ctx.quick else 4
    ctx.bounds = {"messages": "all 155, each element at its minimum and maximum, text fields with 17 texts, float elements with 11 special values", "sequences":
                  f"every message followed by up to {1 if ctx.quick else 2} frames, {others} by up to {depth - 1}, intact or damaged", "empty": "0..40 bytes without a message", "long": "buffers with up to 310 messages of all kinds, repeated, some damaged"}
    ctx.explore("single", single, wire.IDS)
    ctx.explore("pairs", pairs, [(m, others, 2 if ctx.quick else 3) for m in wire.IDS])
    ctx.explore("triples", pairs, [(m, others, depth) for m in others])
    ctx.explore("nothing", nothing, range(41))
    ctx.bounds["recorded"] = "895 buffers of a flight, whole and damaged"
    ctx.explore("recorded", recorded, range(8))
    ctx.explore("long", long_buffer, [(first, step, damage) for first in range(3) for step in (1, 2, 7) for damage in (0, 2, 3, 50)])
