"""Header validity: exactly marker + existing id + that id's payload length, at exactly six bytes."""
from protocol_meta import is_valid_header
from mc import wire

MIDDLES = [(0, 0, 0), (255, 255, 255), (1, 2, 3), (254, 254, 254), (0xD4, 0x13, 0xFE)]


def all_headers(stx, rec):
    """every (length, id) with this first byte; other bytes from a fixed list"""
    for ln in range(256):
        for mid in range(256):
            mids = MIDDLES if (stx == wire.STX or wire.LENGTH.get(mid) == ln) else MIDDLES[(ln + mid) % 5:][:1]
            for a, b, c in mids:
                buf = bytes((stx, ln, a, b, c, mid))
                got = is_valid_header(buf)
                if bool(got) != wire.header_ok(buf):
                    rec.fail(f"header {buf.hex()} judged {got}", {"header": buf})
                rec.step()
    rec.states_n(65536)
    rec.trace(65536)
    rec.sample({"first byte": stx, "length/id": "all 65536", "valid found": sum(
        wire.header_ok(bytes((stx, ln, 0, 0, 0, m))) for ln in range(256) for m in range(256))})


def middles(mid, rec):
    """every value of each of the three free bytes, for the valid header of this id and its one bit neighbours"""
    base = bytes((wire.STX, wire.LENGTH[mid], 0, 0, 0, mid))
    variants = [base] + [base[:k] + bytes([base[k] ^ (1 << i)]) + base[k + 1:] for k in (0, 1, 5) for i in range(8)]
    for v in variants:
        for pos in (2, 3, 4):
            for val in range(256):
                buf = v[:pos] + bytes([val]) + v[pos + 1:]
                rec.check(bool(is_valid_header(buf)) == wire.header_ok(buf), f"header {buf.hex()} misjudged", {"header": buf})
                rec.step()
                rec.trace()
                rec.state(buf)


def lengths(mid, rec):
    """anything but six bytes is not a header"""
    f = wire.frame(mid) + bytes(4)
    for n in range(len(f) + 1):
        buf = f[:n]
        rec.check(bool(is_valid_header(buf)) == wire.header_ok(buf), f"{n} byte buffer misjudged", {"buffer": buf})
        buf = f[len(f) - n:]
        rec.check(bool(is_valid_header(buf)) == wire.header_ok(buf), f"{n} byte buffer misjudged", {"buffer": buf})
        rec.step(2)
        rec.trace(2)
        rec.state((mid, n))


def run(ctx):
    ctx.bounds = {"first byte x length x id": "all 2^24", "free bytes": "5 fixed triples, and all 256 values of each for "
                  "every valid header and its 24 one bit neighbours", "buffer length": "0..frame+4 for all 155 messages"}
    ctx.explore("headers", all_headers, range(256))
    ctx.explore("free_bytes", middles, wire.IDS)
    ctx.explore("lengths", lengths, wire.IDS)
