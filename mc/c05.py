"""The dialect: layout tables, building and parsing of every message, and refusal of every damaged frame."""
import itertools
import struct
from array import array
from protocol_meta import dialect_meta as meta, MAVError, field_lengths, format_strings
import mavlink_utils.HC_dialect as hc
from mc import msgobj, wire

RANGE = {"uint64_t": (0, 2 ** 64 - 1), "int64_t": (-2 ** 63, 2 ** 63 - 1), "uint32_t": (0, 2 ** 32 - 1),
         "int32_t": (-2 ** 31, 2 ** 31 - 1), "uint16_t": (0, 65535), "int16_t": (-32768, 32767), "uint8_t": (0, 255),
         "int8_t": (-128, 127), "float": (-3.5e4, 2.0 ** 100), "char": (1, 126)}


def value(typ, kind, k):
    lo, hi = RANGE[typ]
    if kind == "min":
        return lo
    if kind == "max":
        return hi
    if typ == "float":
        return struct.unpack("<f", struct.pack("<f", (1 if k % 2 else -1) * (0.1 + k * 1.7)))[0]
    span = hi - lo
    return lo + (37 * (k + 1) * (span // 200 or 1) + k) % (span + 1)


def vectors(mid):
    els = wire.elements(mid)
    base = [value(e[2], "mix", k) for k, e in enumerate(els)]
    yield base
    for kind in ("min", "max"):
        yield [value(e[2], kind, 0) for e in els]
        for k in range(len(els)):
            v = list(base)
            v[k] = value(els[k][2], kind, 0)
            yield v


def table(mid, rec):
    m = wire.MSG.get(mid)
    rec.at({"msg_id": mid})
    rec.check((mid in meta.msg_ids) == (m is not None), f"message {mid} known: {mid in meta.msg_ids}")
    rec.check(meta.msgs_payload_length.get(mid) == (m["length"] if m else None), f"payload length of {mid} differs")
    got = meta.msgs_fields.get(mid)
    rec.check((got is None) == (m is None) and (m is None or [tuple(f) for f in got] == [(w[0], w[1]) for w in m["wire"]]),
              f"fields of message {mid} differ: {got}")
    rec.step(3)
    rec.trace()
    rec.state(mid)
    if mid == 0:
        rec.check(dict(field_lengths) == wire.SIZES, "field lengths differ")
        rec.check(all(struct.calcsize(format_strings[t]) == n and format_strings[t][0] == "<" for t, n in wire.SIZES.items()),
                  "field formats differ")
        rec.check((meta.stx, meta.header_len, meta.crc_len, meta.protocol_overhead) == (0xFE, 6, 2, 8), "frame constants differ")
        rec.check(sorted(meta.msg_ids) == wire.IDS and len(meta.msg_ids) == len(wire.IDS), "message ids differ")


def build(mid, rec):
    m = wire.MSG[mid]
    names = [w[0] for w in m["wire"]]
    for n, vals in enumerate(vectors(mid)):
        byname, k = {}, 0
        for name, typ, arr in m["wire"]:
            chunk = vals[k:k + max(arr, 1)]
            k += max(arr, 1)
            byname[name] = bytes(chunk) if typ == "char" and arr else (chunk if arr else chunk[0])
        seq, sysid, comp = [(0, 1, 0), (255, 255, 255), (7, 8, 9)][n % 3]
        case = {"msg": m["name"], "values": byname, "seq": seq, "sys": sysid, "comp": comp}
        rec.at(case)
        mav = hc.MAVLink(None, sysid, comp)
        mav.seq = seq
        msg = getattr(mav, m["name"].lower() + "_encode")(*[byname[f] for f in m["declared"]])
        got = bytes(msg.pack(mav, force_mavlink1=True))
        want = wire.frame(mid, wire.pack_payload(mid, vals), seq, sysid, comp)
        rec.check(got == want, f"{m['name']} built as {got.hex()}, expected {want.hex()}", case)
        for parse in (meta.protocol_parser, hc.MAVLink(None).decode):
            p = parse(array("B", want))
            rec.check(p.get_msgId() == mid and p.get_seq() == seq and p.get_srcSystem() == sysid and p.get_srcComponent() == comp,
                      f"{m['name']}: header parsed differently", case)
            rec.check(bytes(p.get_header().pack()) == want[:6], f"{m['name']}: header repacked differently", case)
            for name in names:
                got, exp = getattr(p, name), byname[name]
                if isinstance(exp, bytes):
                    rec.check(p.format_attr(name) == exp.decode("ascii"), f"{m['name']}.{name} parsed as {got!r}", case)
                else:
                    exp = list(exp) if isinstance(exp, list) else exp
                    rec.check((list(got) if isinstance(exp, list) else got) == exp, f"{m['name']}.{name} parsed as {got!r}", case)
        rec.step(3)
        rec.trace()
        rec.state((mid, n))
    rec.sample({"message": m["name"], "vectors": n + 1, "last": byname})


def objects(mid, rec):
    m = wire.MSG[mid]
    base = next(vectors(mid))
    msgobj.objects(hc, m, mid, lambda v, s, y, c: wire.frame(mid, wire.pack_payload(mid, v), s, y, c), itertools.chain([base], msgobj.special_vectors(m, base)), rec)


def accepts(buf):
    try:
        meta.protocol_parser(array("B", buf))
        return True
    except MAVError:
        return False


def damage(job, rec):
    """all one bit flips, byte substitutions in the header, truncations and extensions; two bit flips of short messages"""
    mid, two = job
    f = wire.frame(mid, seq=mid, sys_id=3, comp_id=200)
    rec.check(accepts(f), f"valid frame of {mid} refused", {"frame": f})
    n = len(f) * 8
    cases = [bytes(b ^ (1 << (7 - i % 8)) if j == i // 8 else b for j, b in enumerate(f)) for i in range(n)]
    cases += [f[:k] + bytes([v]) + f[k + 1:] for k in range(6) for v in range(256) if v != f[k]]
    cases += [f[:k] for k in range(8, len(f))] + [f + bytes(k) for k in range(1, 9)] + [f[:-1] + f[-1:] * 2]
    for k in list(range(6, len(f) - 2)) + list(range(len(f) - 1, len(f) + 7)):  # another length than announced, checksum made right
        body = (f[:-2] + bytes(8))[:k]
        cases.append(body + struct.pack("<H", wire.x25(body[1:] + bytes([wire.MSG[mid]["crc_extra"]]))))
    if two:
        for i in range(n):
            for j in range(i + 1, n):
                b = bytearray(f)
                b[i // 8] ^= 1 << (7 - i % 8)
                b[j // 8] ^= 1 << (7 - j % 8)
                cases.append(bytes(b))
    for c in cases:
        rec.at({"frame": f, "damaged": c})
        want = wire.frame_at(c, 0) == len(c)
        if not want and c[0] == wire.STX and c[5] in wire.MSG and c[1] == len(c) - 8 != wire.LENGTH[c[5]] and struct.unpack(
                "<H", c[-2:])[0] == wire.x25(c[1:-2] + bytes([wire.MSG[c[5]]["crc_extra"]])):
            continue  # checksum right for an id of another payload length: screened by header validity (C01), not by the parser
        if accepts(c) != want:
            rec.fail(f"damaged frame of {mid} {'refused' if want else 'accepted'}")
        rec.step()
        rec.trace()
    rec.states_n(len(set(cases)))


def run(ctx):
    limit = 20 if ctx.quick else 70
    ids = range(256)
    ctx.bounds = {"messages": "all 155", "values": "mixed, all min, all max, each element at min and max", "objects": f"per message {len(msgobj.TEXTS) + 4} texts per text field, {len(msgobj.FLOATS)} special values per float element, all zero; comparison with every single element, sequence, system or component changed", "damage":
                  f"all 1 bit flips, all header byte values, all truncations from 8 bytes, extensions up to 8, also with a recomputed checksum; all 2 bit flips of frames up to {limit} bytes"}
    ctx.assumptions = ["mc/dialect_table.json was generated once from mavlink_utils/HC_dialect.xml by the rules of the MAVLink specification"]
    ctx.explore("table", table, ids)
    ctx.explore("build", build, wire.IDS)
    ctx.explore("objects", objects, wire.IDS)
    ctx.explore("damage", damage, [(mid, wire.LENGTH[mid] + 8 <= limit) for mid in sorted(wire.IDS, key=lambda m: -wire.LENGTH[m])])
