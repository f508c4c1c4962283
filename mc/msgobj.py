"""Message objects of a dialect: what they report, how they compare, how they are sent. Shared by C05 and C33."""
import json
import math
from array import array

FLOATS = [0.0, -0.0, 1.0, -1.0, 2.0 ** -149, -2.0 ** -126, 3.4028234663852886e38, -3.4028234663852886e38, math.inf, -math.inf, math.nan]
TEXTS = [b"", b" ", b"A", b"A ", b" A", b"A B", b"AB  ", b"\t", b"A\n", b"0", b"00", b"~", b"A\x00", b"\x00A", b"A\x00B"]


class File:
    def __init__(self):
        self.data = []

    def write(self, b):
        self.data.append(bytes(b))


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return (a == b and math.copysign(1, a) == math.copysign(1, b)) or (a != a and b != b)
    return a == b


def named(m, vals):
    """element values to one value per field; text as bytes of the full width"""
    byname, k = {}, 0
    for name, typ, arr in m["wire"]:
        chunk = vals[k:k + max(arr, 1)]
        k += max(arr, 1)
        byname[name] = bytes(chunk) if typ == "char" and arr else (chunk if arr else chunk[0])
    return byname


def special_vectors(m, base):
    """each text field with each text, each float element with each special value, everything zero"""
    types = [t for _, t, n in m["wire"] for _ in range(max(n, 1))]
    yield [0] * len(types)
    k = 0
    for name, typ, arr in m["wire"]:
        n = max(arr, 1)
        if typ == "char" and arr:
            for text in TEXTS + [b"x" * n, b"y" * (n - 1), b" " * n, b"z" * (n - 1) + b" "]:
                yield base[:k] + list(text[:n].ljust(n, b"\x00")) + base[k + n:]
        if typ == "float":
            for i in range(n):
                for v in FLOATS:
                    yield base[:k + i] + [v] + base[k + i + 1:]
        k += n


def shown(v):
    """the value as a parsed message should report it: text ends at its first NUL"""
    return v.split(b"\x00")[0].decode("ascii") if isinstance(v, bytes) else v


def objects(mod, m, mid, frame, vectors, rec):
    """frame(values, seq, sys, comp) gives the reference frame; vectors the element values to use, the first one ordinary"""
    def parse(f):
        return mod.MAVLink(None).decode(array("B", f))

    first = None
    for n, vals in enumerate(vectors):
        byname = named(m, vals)
        seq, sysid, comp = [(0, 1, 0), (255, 255, 255), (7, 8, 9)][n % 3]
        rec.at({"msg": m["name"], "values": byname, "seq": seq, "sys": sysid, "comp": comp})
        want = frame(vals, seq, sysid, comp)
        out = File()
        mav = mod.MAVLink(out, sysid, comp)
        mav.seq = seq
        args = [byname[f] for f in m["declared"]]
        getattr(mav, m["name"].lower() + "_send")(*args)
        rec.check(out.data == [want], f"{m['name']} sent as {[d.hex() for d in out.data]}, expected {want.hex()}")
        rec.check(mav.seq == (seq + 1) % 256, f"next sequence number is {mav.seq}")
        built = getattr(mav, m["name"].lower() + "_encode")(*args)
        mav.seq = seq
        built.pack(mav)
        p = parse(want)
        for o, who in ((built, "built"), (p, "parsed")):
            rec.check(bytes(o.get_msgbuf()) == want and bytes(o.get_payload()) == want[6:-2] and o.get_crc() == want[-2] | want[-1] << 8,
                      f"{who} message reports other bytes than its frame's")
            rec.check((o.get_type(), o.get_msgId(), o.get_seq(), o.get_srcSystem(), o.get_srcComponent()) == (m["name"], mid, seq, sysid, comp),
                      f"{who} message reports another type, id, sequence or sender")
            rec.check(list(o.get_fieldnames()) == m["declared"], f"field names of {who} message are {o.get_fieldnames()}")
        exp = {k: shown(v) for k, v in byname.items()}
        for k, v in exp.items():
            got = p.format_attr(k)
            got = list(got) if isinstance(v, list) else got
            rec.check(same(got, v), f"{k} parsed as {got!r}, sent {v!r}")
        d = p.to_dict()
        rec.check(set(d) == set(exp) | {"mavpackettype"} and d["mavpackettype"] == m["name"]
                  and all(same(list(d[k]) if isinstance(v, list) else d[k], v) for k, v in exp.items()), f"dictionary is {d}")
        rec.check(list(d) == ["mavpackettype"] + m["declared"], f"order of the dictionary is {list(d)}")
        if all(not isinstance(v, bytes) or v.rstrip(b"\x00") == v.split(b"\x00")[0] for v in byname.values()):
            b = built.to_dict()
            rec.check(set(b) == set(d) and all(same(b[k], v) and same(built.format_attr(k), v) for k, v in exp.items()), f"dictionary before sending is {b}")
            if all(x == x for v in exp.values() for x in (v if isinstance(v, list) else [v])):
                rec.check(built == p and not built != p or any(isinstance(v, list) for v in exp.values()), "the message sent and the one received differ")
        rec.check(all(built.format_attr(k) == v.rstrip(b"\x00").decode("ascii") for k, v in byname.items() if isinstance(v, bytes)), "a text before sending is not the one given")
        for o in (built, p):
            text = m["name"] + " {" + ", ".join(f"{k} : {o.format_attr(k)}" for k in m["declared"]) + "}"
            rec.check(str(o) == text, f"printed as {str(o)!r}, expected {text!r}")
        if all(not isinstance(x, float) or math.isfinite(x) for v in exp.values() for x in (v if isinstance(v, list) else [v])):
            j = json.loads(p.to_json())
            rec.check(set(j) == set(d) and all(same(j[k], v) for k, v in exp.items()), f"JSON form is {j}")
            rec.check(p == parse(want) and not p != parse(want), "two parses of one frame differ")
        if first is None:
            first = (vals, p)
        rec.step(4)
        rec.trace()
        rec.state((mod.__name__, mid, "object", n))
    vals, p = first
    types = [t for _, t, n in m["wire"] for _ in range(max(n, 1))]
    changed = [vals[:k] + [vals[k] * 2 if t == "float" else vals[k] ^ 1] + vals[k + 1:] for k, t in enumerate(types)]
    for other, what in [((vals, 1, 1, 0), "sequence"), ((vals, 0, 2, 0), "system"), ((vals, 0, 1, 1), "component")] + [
            ((v, 0, 1, 0), f"element {k}") for k, v in enumerate(changed)]:
        q = parse(frame(*other))
        rec.at({"msg": m["name"], "values": named(m, vals), "changed": what})
        rec.check(p != q and not p == q, f"messages with another {what} compare equal")
        rec.step()
    rec.check(p != None and not p == None, "a message equals nothing at all")  # noqa: E711
