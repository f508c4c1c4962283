"""Distance to the nearest valid header is the true minimum, and the id returned attains it and fits."""
import functools
from protocol_meta import hamming_distance_2_valid_header, msg_header
from protocol_meta.msg_header import HeaderLength
from mc import wire

if hasattr(msg_header, "hamming_distance"):  # speed only: the byte distance, 300 calls per header, is remembered per pair of bytes
    msg_header.hamming_distance = functools.lru_cache(maxsize=None, typed=True)(msg_header.hamming_distance)

POP = [bin(i).count("1") for i in range(256)]


def verify(buf, max_len, rec):
    fits = [(POP[ln ^ buf[1]] + POP[mid ^ buf[5]], mid) for mid, ln in wire.LENGTH.items() if max_len is None or ln <= max_len]
    case = {"header": buf, "max_len": max_len}
    rec.at(case)
    dist, mid = hamming_distance_2_valid_header(buf) if max_len is None else hamming_distance_2_valid_header(buf, max_len)
    rec.step()
    rec.trace()
    if not fits:
        rec.check(mid == -1, f"{case}: id {mid} though no message fits", case)
        return
    best = min(fits)[0]
    ids = {m for d, m in fits if d == best}
    rec.check(mid in ids, f"{case}: chose id {mid}, nearest are {sorted(ids)}", case)
    rec.check(dist == best + POP[wire.STX ^ buf[0]], f"{case}: distance {dist}, true one {best + POP[wire.STX ^ buf[0]]}", case)


def plane(job, rec):
    """all lengths for these ids"""
    mid, stx, max_lens, lens = job
    for ln in lens:
        buf = bytes((stx, ln, 3, 1, 200, mid))
        for m in max_lens:
            rec.state((stx, ln, mid, m))
            verify(buf, m, rec)
    rec.sample({"id byte": mid, "first byte": stx, "length bytes": len(lens), "max_len": [str(m) for m in max_lens[:5]]})


def near(mid, rec):
    """valid header and its one bit neighbours, for limits around every payload length, and all first bytes"""
    ln = wire.LENGTH[mid]
    base = bytes((wire.STX, ln, 0, 255, 0, mid))
    for m in sorted({0, 1, 254, 255, ln - 1, ln, ln + 1} | {l - d for l in set(wire.LENGTH.values()) for d in (0, 1)}):
        if m >= 0:
            rec.state((base, m))
            verify(base, m, rec)
    for k in (0, 1, 5):
        for i in range(8):
            b = base[:k] + bytes([base[k] ^ (1 << i)]) + base[k + 1:]
            for m in (None, ln - 1, ln):
                rec.state((b, m))
                verify(b, m, rec)
    for stx in range(256):
        b = bytes([stx]) + base[1:]
        rec.state((b, None))
        verify(b, None, rec)


def length(n, rec):
    for mid in wire.IDS:
        b = (wire.frame(mid) * 4)[:n]
        rec.at({"buffer": b})
        try:
            hamming_distance_2_valid_header(b)
            rec.fail(f"{n} byte header accepted", {"buffer": b})
        except HeaderLength:
            pass
        rec.step()
        rec.trace()
        rec.state(b)


def run(ctx):
    distinct = sorted(set(wire.LENGTH.values()))
    if ctx.quick:
        jobs = [(mid, wire.STX, [None], range(256)) for mid in range(256)]
    else:
        jobs = [(mid, stx, [None], range(256)) for mid in range(256) for stx in (wire.STX, 0, 255)]
        jobs += [(mid, wire.STX, distinct, range(mid % 4, 256, 4)) for mid in range(256)]
    ctx.bounds = {"length x id": "all 65536 with no limit" if ctx.quick else "all 65536 with no limit x 3 first bytes; a quarter "
                  "of them under every distinct payload length as limit",
                  "near": "155 valid headers under every limit next to a payload length; their 24 neighbours under 3 limits; all first bytes"}
    ctx.explore("plane", plane, jobs)
    ctx.explore("near", near, wire.IDS)
    ctx.explore("length", length, list(range(6)) + list(range(7, 16)))
