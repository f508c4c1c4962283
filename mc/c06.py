"""Segmentation is sound and complete: exactly the complete, checksum-correct frames, leftmost first, are reported."""
import itertools
import struct
import numpy as np
from inference.buffer_segmentation import BufferSegmentation, MsgParts
from protocol_meta import dialect_meta as meta
from mc import flight, wire

KIND = {MsgParts.HEADER: "H", MsgParts.PAYLOAD: "P", MsgParts.CHECKSUM: "C", MsgParts.UNKNOWN: "U"}
SHARED = BufferSegmentation(meta.protocol_parser)


def verify(buf, rec, seg=None):
    rec.at({"buffer": buf})
    parts, structure = wire.segment(buf)
    msg_parts, validity, got = (seg or SHARED).segment_buffer(buf)
    rec.step()
    rec.trace()
    if dict(got) != structure or list(got) != list(structure):
        rec.fail(f"messages found {dict(got)}, frames present {structure}")
    kinds = [KIND.get(p) for p in msg_parts]
    if kinds != parts:
        k = next((i for i, (a, b) in enumerate(zip(kinds, parts)) if a != b), "length")
        rec.fail(f"byte {k} labelled {kinds[k] if k != 'length' else len(kinds)}, is {parts[k] if k != 'length' else len(parts)}")
    want = np.repeat([0.0 if p == "U" else 1.0 for p in parts], 8) if parts else np.zeros(0)
    if len(validity) != len(want) or not np.array_equal(np.asarray(validity, dtype=float), want):
        rec.fail("bit validity is not one exactly on the bits of the frames found")
    return structure


def corrupt(f, byte, mask=1):
    return f[:byte] + bytes([f[byte] ^ mask]) + f[byte + 1:]


def chunks():
    f = wire.frame
    inner = f(0, seq=9)                                        # 17 bytes
    host = next(m for m in wire.IDS if wire.LENGTH[m] == 28)   # hosts an inner frame in its payload
    nest = f(host, bytes(5) + inner + bytes(6))
    tail = f(host, bytes(28 - 11) + inner[:11])                # an inner frame that starts in the payload and runs past it
    return {
        "msg0": f(0), "msg2_same_id": f(0, bytes(range(9)), 200, 254, 254), "len2": f(245), "with_array": f(147),
        "with_text": f(253, b"\xfe\x09" + bytes(range(128, 128 + 49))), "long": f(130), "nested": nest,
        "nested_outer_bad": corrupt(nest, 2), "nested_bad_crc": corrupt(nest, len(nest) - 1), "bad_payload": corrupt(f(30), 20, 0x80),
        "straddle": tail + inner[11:], "straddle_outer_bad": corrupt(tail, len(tail) - 2) + inner[11:], "header_only": f(33)[:6],
        "cut_short": f(33)[:-1], "stx": b"\xfe", "junk": b"\x00\xfd\x55", "wrong_length": bytes([254, 8, 0, 1, 0, 0]) + f(0)[6:],
        "stx_run": b"\xfe\xfe\xfe\xfe\xfe\xfe",
    }


CHUNKS = None
OVERLAPS = [(a, b) for a in (0, 33, 76, 253, 254) for b in (0, 33, 76, 253)]


def sequences(prefix, rec):
    """every chunk sequence beginning with these"""
    names = list(CHUNKS)
    head = b"".join(CHUNKS[n] for n in prefix[0])
    for more in range(prefix[1] + 1):
        for rest in itertools.product(names, repeat=more):
            s = verify(head + b"".join(CHUNKS[n] for n in rest), rec)
            rec.state((prefix[0], rest))
    rec.sample({"chunks": prefix[0] + rest, "found": s})


def every_message(mid, rec):
    """every message: behind junk, before junk, cut at every length, next to itself"""
    f = wire.frame(mid, seq=mid, sys_id=wire.STX)
    seg = BufferSegmentation(meta.protocol_parser)
    for pre, post in itertools.product((0, 1, 2, 7), (0, 1, 5, 8)):
        verify(bytes([254] * pre) + f + bytes([254] * post), rec, seg)
    for k in range(len(f)):
        verify(f[:k], rec, seg)
        verify(f[k:], rec, seg)
        verify(f[:k] + f, rec, seg)
        verify(corrupt(f, k, 1 << k % 8) + f, rec, seg)
    verify(f + f + f, rec, seg)
    rec.states_n(16 + 4 * len(f) + 1)


def overlap(outer, inner, k):
    """two complete frames, the second starting at byte k of the first and running past its end; None where there is none"""
    n, m = wire.LENGTH[outer] + 8, wire.LENGTH[inner] + 8
    fixed = {k: wire.STX, k + 1: m - 8, k + 5: inner}
    body = {0: wire.STX, 1: n - 8, 5: outer}
    if k + m <= n or any(fixed.get(i, v) != v for i, v in body.items()) or k + 5 >= n and k + m < n + 2:
        return None
    out = bytearray((3 * i + 1) % 251 for i in range(n - 2))
    for i, v in list(fixed.items()) + list(body.items()):
        if i < n - 2:
            out[i] = v
    free = [i for i in range(2, n - 2) if i not in fixed and i not in body][:2]
    for a in range(256):
        for b in range(256):
            out[free[0]], out[free[-1]] = a, b
            f = bytes(out)
            f += struct.pack("<H", wire.x25(f[1:] + bytes([wire.MSG[outer]["crc_extra"]])))
            if all(i >= n or f[i] == v for i, v in fixed.items()):
                g = bytearray(f[k:]) + bytearray((5 * i + 2) % 250 for i in range(m - 2 - (n - k)))
                for i, v in fixed.items():
                    if i >= n:
                        g[i - k] = v
                if len(g) != m - 2:
                    return None
                g += struct.pack("<H", wire.x25(bytes(g[1:]) + bytes([wire.MSG[inner]["crc_extra"]])))
                assert wire.frame_at(f, 0) == n and wire.frame_at(bytes(g), 0) == m
                return f, bytes(g)
    return None


def overlapping(job, rec):
    """a frame that starts inside another one, at every byte of it"""
    outer, inner = job
    found = []
    for k in range(1, wire.LENGTH[outer] + 8):
        pair = overlap(outer, inner, k)
        if pair is None:
            continue
        f, g = pair
        found.append(k)
        for tail in (b"", wire.frame(245), g, f):
            both = f[:k] + g + tail
            verify(both, rec)
            verify(b"\xfe" + both, rec)
            for i in range(k):
                verify(corrupt(both, i), rec)
            verify(f + tail, rec)
            verify(g + tail, rec)
            rec.states_n(4 + k)
    rec.sample({"outer": outer, "inner": inner, "starts at": found})


def slices(i, rec):
    for j in range(i, len(wire.GOOD) + 1):
        verify(wire.GOOD[i:j], rec)
        rec.state((i, j))


def flips(job, rec):
    """flip these bits of a good buffer"""
    buf, i, js = job
    b = bytearray(buf)
    b[i // 8] ^= 128 >> i % 8
    for j in js:
        c = bytearray(b)
        if j is not None:
            c[j // 8] ^= 128 >> j % 8
        verify(bytes(c), rec)
        rec.state((len(buf), i, j))


def short_strings(first, rec):
    for n in range(0, 8):
        for rest in itertools.product((0xFE, 0x02, 0xF5, 0x00), repeat=n):
            verify(bytes(first + rest), rec)
    rec.states_n(sum(4 ** n for n in range(0, 8)))


def long_buffers(job, rec):
    """several kilobytes: every message in turn, with each chunk in between, from every chunk on"""
    names = list(CHUNKS)
    first, step = job
    out = []
    for k, mid in enumerate(wire.IDS[first::step]):
        out += [wire.frame(mid, seq=k % 256, sys_id=k % 3), CHUNKS[names[(first + k) % len(names)]] if k % 3 else b""]
    whole = b"".join(out)
    s = verify(whole, rec)
    verify(whole[:-1] + b"\xfe", rec)
    verify(bytes(5000) + whole[:2000] + bytes(300), rec)
    rec.states_n(3)
    rec.sample({"bytes": len(whole), "frames found": len(s)})


def recorded(first, rec):
    """buffers of a recorded flight, whole, with damage at a position of their own, and as one stream"""
    mine = flight.BUFFERS[first::8]
    for t, b in enumerate(mine):
        rec.check(wire.segment(b)[1] == flight.STRUCTURE, "oracle")
        verify(b, rec)
        for bad in ([(37 * t + first) % 1224], flight.errors(t + first, 1224, 2 + t % 9)):
            x = bytearray(b)
            for i in bad:
                x[i // 8] ^= 128 >> i % 8
            verify(bytes(x), rec)
        verify(b[t % 153:] + mine[t - 1][:(7 * t) % 153], rec)
    verify(b"".join(mine), rec)
    rec.states_n(4 * len(mine) + 1)


def structure_object(job, rec):
    names = job
    buf = b"".join(CHUNKS[n] for n in names)
    want = wire.segment(buf)[1]
    rec.at({"chunks": names})
    s = SHARED.get_buffer_structure(buf)
    rec.check(s == want and dict(s.structure) == want and len(s) == len(want) and s.reception_count == 0 and not s.received_buffers,
              f"structure {s} of a buffer holding {want}")
    rec.check(not (s == {**want, 9999: 0}), "structure equal to another one")
    rec.step()
    rec.trace()
    rec.state(names)


def run(ctx):
    global CHUNKS
    CHUNKS = chunks()
    names = list(CHUNKS)
    depth = 3 if ctx.quick else 4
    pair = wire.frame(245) + wire.frame(0) if ctx.quick else wire.GOOD
    n = len(pair) * 8
    ctx.bounds = {"chunk sequences": f"all up to {depth} of {len(names)} chunks", "messages": "all 155, cut at every byte, each byte damaged",
                  "slices": "all slices of a 117 byte log buffer", "bit flips": f"all single flips of it; all pairs of flips of a {len(pair)} byte buffer",
                  "overlaps": f"{len(OVERLAPS)} pairs of messages, the second starting at every possible byte of the first, checksum included",
                  "long buffers": "24 of up to 10 KB with every message and chunk",
                  "short strings": "all over 4 byte values up to 8 bytes"}
    ctx.assumptions = ["the reference segmentation in mc/wire.py is greedy from the left, as the documentation describes"]
    ctx.explore("sequences", sequences, [((), 0)] + [((a,), 0) for a in names] + [((a, b), depth - 2) for a in names for b in names])
    ctx.explore("every_message", every_message, sorted(wire.IDS, key=lambda m: -wire.LENGTH[m]))
    ctx.explore("overlapping", overlapping, OVERLAPS)
    ctx.explore("slices", slices, range(len(wire.GOOD) + 1))
    ctx.explore("flip1", flips, [(wire.GOOD, i, [None]) for i in range(len(wire.GOOD) * 8)])
    ctx.explore("flip2", flips, [(pair, i, range(i + 1, n)) for i in range(n)])
    ctx.bounds["recorded"] = "895 buffers of a flight, whole, damaged in two ways and cut"
    ctx.explore("recorded", recorded, range(8))
    ctx.explore("long", long_buffers, [(f, s) for s in (1, 2, 5) for f in range(s * 3)])
    ctx.explore("short", short_strings, [(a,) for a in (0xFE, 0x02, 0xF5, 0x00)])
    ctx.explore("structure", structure_object, [s for k in range(3) for s in itertools.product(names, repeat=k)])
