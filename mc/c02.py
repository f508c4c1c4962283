"""Frame headers: build / parse round trip, and rejection of everything out of range."""
import itertools
from protocol_meta import FrameHeader, NonExistentMsdId, is_valid_header
from utils.custom_exceptions import NonUint8
from protocol_meta.msg_header import HeaderLength
from mc import wire

EDGE = (-2 ** 31, -1, 0, 1, 2, 127, 128, 254, 255, 256, 2 ** 31)
INNER = (0, 1, 127, 128, 254, 255)


def expect(mid, sys_id, comp, seq):
    if any(not 0 <= v <= 255 for v in (sys_id, comp, seq)) or not 0 <= mid <= 255:
        return NonUint8
    return bytes((wire.STX, wire.LENGTH[mid], seq, sys_id, comp, mid)) if mid in wire.LENGTH else NonExistentMsdId


def one(mid, sys_id, comp, seq, rec):
    want = expect(mid, sys_id, comp, seq)
    case = {"msg_id": mid, "sys_id": sys_id, "comp_id": comp, "seq": seq}
    rec.at(case)
    rec.step()
    rec.trace()
    rec.state((mid, sys_id, comp, seq))
    try:
        h = FrameHeader(mid, sys_id, comp, seq)
    except (NonUint8, NonExistentMsdId) as e:
        rec.check(type(e) is want, f"{case} rejected with {type(e).__name__}, expected {want}", case)
        return None
    rec.check(h.buffer == want, f"{case} built as {h.buffer.hex()}, expected {want}", case)
    rec.check((h.length, h.sequence, h.sys_id, h.comp_id, h.msg_id) == (wire.LENGTH[mid], seq, sys_id, comp, mid),
              f"{case}: fields read back differ", case)
    rec.check(is_valid_header(h.buffer), f"{case}: built header is not valid", case)
    rec.check(h.bit_string.bytes == want, f"{case}: bit string differs", case)
    rec.check(repr(h) == str(want) and str(mid) in str(h) and str(sys_id) in str(h), f"{case}: text differs", case)
    return h


def build(mid, rec):
    for s, c, q in itertools.product(EDGE, repeat=3):
        one(mid, s, c, q, rec)
    for v in range(256):
        for args in ((v, 7, 9), (7, v, 9), (7, 9, v)):
            one(mid, *args, rec)
    rec.sample({"msg_id": mid, "sys/comp/seq": "edges cubed and all 256 of each"})


def parse(mid, rec):
    """any six bytes with a known id parse to the header of that id; the first two bytes are regenerated"""
    flips = [bytes(1 << (7 - k % 8) if j == k // 8 else 0 for j in range(6)) for k in range(48)]
    for b0, b1 in itertools.product((0, wire.STX, 255), (0, wire.LENGTH[mid], wire.LENGTH[mid] ^ 1, 255)):
        for q, s, c in itertools.product(INNER, repeat=3):
            buf = bytes((b0, b1, q, s, c, mid))
            rec.at({"buffer": buf})
            h = FrameHeader.from_buffer(buf)
            want = expect(mid, s, c, q)
            rec.check(h.buffer == want, f"parsed {buf.hex()} to {h.buffer.hex()}", {"buffer": buf})
            rec.step()
            rec.trace()
            rec.state(buf)
    h = FrameHeader.from_buffer(bytes((0, 0, 5, 6, 7, mid)))
    for f in flips:
        other = bytes(x ^ y for x, y in zip(h.buffer, f))
        rec.check(h.hamming_distance(other) == 1, "one flipped bit is not at distance 1", {"header": h.buffer, "other": other})
    for a, b in itertools.combinations(range(48), 2):
        other = bytes(x ^ y ^ z for x, y, z in zip(h.buffer, flips[a], flips[b]))
        rec.check(h.hamming_distance(other) == 2, "two flipped bits are not at distance 2", {"header": h.buffer, "other": other})
    rec.check(h.hamming_distance(bytes(255 - x for x in h.buffer)) == 48 and h.hamming_distance(h.buffer) == 0,
              "distance to complement or to itself", {"header": h.buffer})
    rec.step(48 + 1128 + 2)
    # forced ids
    for forced in range(-2, 259):
        want = expect(forced, 6, 7, 5)
        rec.at({"buffer id": mid, "forced": forced})
        try:
            got = FrameHeader.from_buffer(bytes((0, 0, 5, 6, 7, mid)), forced).buffer
        except (NonUint8, NonExistentMsdId) as e:
            got = type(e)
        rec.check(got == want, f"forcing id {forced} over {mid} gave {got}", {"forced": forced, "id": mid})
        rec.step()
        rec.trace()


def bad(mid, rec):
    """unknown ids in a buffer, and buffers of any other length, are rejected"""
    buf = bytes((wire.STX, 9, 1, 2, 3, mid))
    if mid not in wire.LENGTH:
        rec.at({"buffer": buf})
        try:
            FrameHeader.from_buffer(buf)
            rec.fail(f"header with unknown id {mid} accepted", {"buffer": buf})
        except NonExistentMsdId:
            pass
    for n in list(range(6)) + list(range(7, 20)):
        b = (buf * 4)[:n]
        h = FrameHeader(0, 1, 1, 1)
        for f in (FrameHeader.from_buffer, h.hamming_distance):
            try:
                f(b)
                rec.fail(f"{n} byte header accepted", {"buffer": b})
            except HeaderLength:
                pass
            rec.step()
        rec.state(b)
        rec.trace()


def run(ctx):
    ctx.bounds = {"msg_id": "-2..258", "sys/comp/seq": "11 edge values cubed and all 256 values one at a time",
                  "parse": "3x4 first bytes x 6^3, all 1 and 2 bit distances, all forced ids -2..258", "length": "0..19"}
    ctx.explore("build", build, range(-2, 259))
    ctx.explore("parse", parse, wire.IDS)
    ctx.explore("reject", bad, range(256))
