"""The bad parts of a buffer: maximal runs of unknown bytes, all of them and nothing else, in both forms."""
import itertools
import numpy as np
from inference.buffer_segmentation import BufferSegmentation, MsgParts
from protocol_meta import dialect_meta as meta
from mc import wire

GOODS = [MsgParts.HEADER, MsgParts.PAYLOAD, MsgParts.CHECKSUM]


def runs(mask):
    out, i = [], 0
    for bad, grp in itertools.groupby(mask):
        n = len(list(grp))
        if bad:
            out.append((i, i + n))
        i += n
    return out


def verify(buf, parts, rec):
    want = runs([p == MsgParts.UNKNOWN for p in parts])
    before = list(parts)
    rec.at({"buffer": buf, "unknown runs": want})
    got = BufferSegmentation.bad_buffer_parts(buf, parts)
    rec.check(dict(got) == {a: buf[a:b] for a, b in want}, f"bad parts {got}, unknown runs {want}")
    rec.check(list(got) == sorted(got), f"bad parts out of order: {list(got)}")
    idx = BufferSegmentation.bad_buffer_idx(buf, parts)
    rec.check((idx is None and not want) or (idx is not None and [tuple(t) for t in idx] == want and want),
              f"bad ranges {idx}, unknown runs {want}")
    rec.check(list(parts) == before, "the labels were changed")
    rec.step(2)
    rec.trace()


def masks(job, rec):
    n, head = job
    for tail in itertools.product((0, 1), repeat=n - len(head)):
        mask = head + tail
        buf = bytes((37 * i + 1) % 256 for i in range(n))
        parts = np.array([MsgParts.UNKNOWN if m else GOODS[i % 3] for i, m in enumerate(mask)] + [None], dtype=object)[:-1]
        verify(buf, parts, rec)
    rec.states_n(2 ** (n - len(head)))
    rec.sample({"length": n, "masks": 2 ** (n - len(head)), "last runs": runs(mask)})


def long_masks(job, rec):
    """long buffers with runs of given lengths"""
    bad, good, n = job
    for shift in range(bad + good):
        mask = [(i + shift) % (bad + good) < bad for i in range(n)]
        buf = bytes((37 * i + 1) % 251 for i in range(n))
        parts = np.array([MsgParts.UNKNOWN if m else GOODS[i % 3] for i, m in enumerate(mask)] + [None], dtype=object)[:-1]
        verify(buf, parts, rec)
        rec.state((bad, good, n, shift))


def after_segmentation(job, rec):
    """frames and bad parts together give the buffer back"""
    frames = {"a": wire.frame(0), "b": wire.frame(245), "x": wire.frame(30)[:-1], "j": b"\xfe\x00", "z": bytes(3)}
    for n in range(0, 4):
        for rest in itertools.product(frames, repeat=n):
            buf = b"".join(frames[k] for k in job + rest)
            seg = BufferSegmentation(meta.protocol_parser)
            parts, _, structure = seg.segment_buffer(buf)
            verify(buf, parts, rec)
            pieces = dict(seg.bad_buffer_parts(buf, parts))
            for i, mid in structure.items():
                pieces[i] = buf[i:i + wire.LENGTH[mid] + 8]
            rec.check(b"".join(pieces[i] for i in sorted(pieces)) == buf, "frames and bad parts do not add up to the buffer", {"buffer": buf})
            rec.state(job + rest)


def run(ctx):
    top = 13 if ctx.quick else 18
    ctx.bounds = {"labelings": f"all good/bad masks of buffers up to {top} bytes", "long": "buffers of 255 to 1000 bytes with runs of 1 to 300 bytes at every offset", "segmented": "all sequences of 1..4 of 5 chunks"}
    ctx.explore("masks", masks, [(n, h) for n in range(0, top + 1) for h in itertools.product((0, 1), repeat=min(n, 4))])
    ctx.explore("long", long_masks, [(b, g, n) for b in (1, 2, 7, 40, 300) for g in (1, 2, 9, 257) for n in (255, 256, 257, 1000)])
    ctx.explore("segmented", after_segmentation, [(k,) for k in "abxjz"])
