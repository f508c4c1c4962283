"""The minimal dialect and the enumerations of both dialects."""
import json
import os
import struct
from array import array
import mavlink_utils.HC_dialect as hc
import mavlink_utils.minimal_dialect as mini
from mc import msgobj, wire
from mc.c05 import value

T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "minimal_table.json")))
MSG = {m["id"]: m for m in T["messages"]}


def elements(mid):
    return [t for _, t, n in MSG[mid]["wire"] for _ in range(max(n, 1))]


def frame(mid, vals, seq, sysid, comp):
    m = MSG[mid]
    payload = b"".join(struct.pack("<" + wire.FMT[t], v) for t, v in zip(elements(mid), vals))
    assert len(payload) == m["length"]
    body = bytes([len(payload), seq, sysid, comp, mid]) + payload
    return bytes([wire.STX]) + body + struct.pack("<H", wire.x25(body + bytes([m["crc_extra"]])))


def vectors(mid):
    els = elements(mid)
    base = [value(t, "mix", k) for k, t in enumerate(els)]
    yield base
    for kind in ("min", "max"):
        yield [value(t, kind, 0) for t in els]
        for k, t in enumerate(els):
            yield base[:k] + [value(t, kind, 0)] + base[k + 1:]


def accepts(buf):
    try:
        mini.MAVLink(None).decode(array("B", buf))
        return True
    except mini.MAVError:
        return False


def messages(mid, rec):
    rec.at({"msg_id": mid})
    rec.check((mid in mini.mavlink_map) == (mid in MSG), f"message {mid} known: {mid in mini.mavlink_map}")
    rec.step()
    rec.trace()
    rec.state(mid)
    if mid not in MSG:
        return
    m = MSG[mid]
    cls = mini.mavlink_map[mid]
    rec.check(list(cls.ordered_fieldnames) == [w[0] for w in m["wire"]] and list(cls.fieldnames) == m["declared"] and cls.name == m["name"]
              and [cls.fieldtypes[cls.fieldnames.index(w[0])] for w in m["wire"]] == [w[1] for w in m["wire"]], f"fields of {m['name']} differ")
    for n, vals in enumerate(vectors(mid)):
        byname, k = {}, 0
        for name, typ, arr in m["wire"]:
            chunk = vals[k:k + max(arr, 1)]
            k += max(arr, 1)
            byname[name] = bytes(chunk) if typ == "char" and arr else (chunk if arr else chunk[0])
        seq, sysid, comp = [(0, 1, 0), (255, 255, 255), (7, 8, 9)][n % 3]
        rec.at({"msg": m["name"], "values": byname, "seq": seq, "sys": sysid, "comp": comp})
        mav = mini.MAVLink(None, sysid, comp)
        mav.seq = seq
        got = bytes(getattr(mav, m["name"].lower() + "_encode")(*[byname[f] for f in m["declared"]]).pack(mav))
        want = frame(mid, vals, seq, sysid, comp)
        rec.check(got == want, f"built as {got.hex()}, expected {want.hex()}")
        p = mav.decode(array("B", want))
        rec.check((p.get_msgId(), p.get_seq(), p.get_srcSystem(), p.get_srcComponent()) == (mid, seq, sysid, comp), "header parsed differently")
        for name, exp in byname.items():
            v = p.format_attr(name)
            if isinstance(exp, bytes):
                exp = exp.decode("ascii")
            rec.check((list(v) if isinstance(exp, list) else v) == exp, f"{name} parsed as {v!r}, sent {exp!r}")
        rec.step(2)
        rec.trace()
        rec.state((mid, n))
    for i in range(len(want) * 8):
        for j in range(i, len(want) * 8):
            if j > i and len(want) > 30:
                break
            b = bytearray(want)
            b[i // 8] ^= 1 << i % 8
            if j > i:
                b[j // 8] ^= 1 << j % 8
            rec.at({"frame": want, "damaged": bytes(b)})
            if b[0] == 0xFE:
                rec.check(not accepts(bytes(b)), "damaged frame accepted")
            rec.step()
            rec.states_n(1)
    for k in range(8, len(want)):
        rec.check(not accepts(want[:k]), f"frame cut to {k} bytes accepted")
    for k in range(1, 9):
        rec.check(not accepts(want + bytes(k)), f"frame with {k} more bytes accepted")
    rec.sample({"message": m["name"], "vectors": n + 1})


def objects(mid, rec):
    base = next(vectors(mid))
    msgobj.objects(mini, MSG[mid], mid, lambda v, s, y, c: frame(mid, v, s, y, c), [base] + list(msgobj.special_vectors(MSG[mid], base)), rec)


def enumeration(name, rec):
    entries = T["enums"][name]
    for mod in (hc, mini):
        rec.at({"enum": name, "dialect": mod.__name__})
        rec.check(name in mod.enums, "enumeration missing")
        table = mod.enums[name]
        for entry, v in entries:
            rec.check(getattr(mod, entry, None) == v, f"{entry} is {getattr(mod, entry, None)}, should be {v}")
            rec.check(v in table and table[v].name == entry, f"value {v} is not named {entry}")
            rec.step()
            rec.state((mod.__name__, name, entry))
        extra = [t.name for v, t in table.items() if (t.name not in [e[0] for e in entries]) and not t.name.endswith("_ENUM_END")]
        rec.check(not extra, f"entries {extra} are not defined")
        rec.trace()
    rec.sample({"enum": name, "entries": len(entries)})


def run(ctx):
    ctx.bounds = {"messages": "all 256 ids; the 6 messages with mixed, all min, all max and each element at min and max, texts and special floats", "damage": "all one bit flips, all two bit flips of frames up to 30 bytes, "
                  "all truncations from 8 bytes, extensions up to 8", "enumerations": f"all {len(T['enums'])} of both dialects"}
    ctx.assumptions = ["mc/minimal_table.json was generated once from minimal_dialect.xml (same enumerations as HC_dialect.xml)"]
    ctx.explore("messages", messages, range(256))
    ctx.explore("objects", objects, sorted(MSG))
    ctx.explore("enums", enumeration, sorted(T["enums"]))
