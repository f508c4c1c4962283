"""Dialects generated from definition files: the shipped definitions and all small ones."""
import importlib.util
import itertools
import json
import os
import re
import shutil
import struct
import tempfile
from array import array
import mavlink_utils.HC_dialect as hc
import mavlink_utils.minimal_dialect as mini
from mavlink_utils.utils import dialect_creator
from mc import wire
from mc.core import REPO
from mc.gen_dialect_table import x25, SIZES

HERE = os.path.dirname(os.path.abspath(__file__))
MINI = json.load(open(os.path.join(HERE, "minimal_table.json")))
SHIPPED = {"HC": (hc, wire.TABLE, "HC_dialect.xml"), "minimal": (mini, MINI["messages"], "minimal_dialect.xml")}
FMT = dict(wire.FMT, double="d")
RANGE = {"uint64_t": (0, 2 ** 64 - 1), "int64_t": (-2 ** 63, 2 ** 63 - 1), "uint32_t": (0, 2 ** 32 - 1), "int32_t": (-2 ** 31, 2 ** 31 - 1), "uint16_t": (0, 65535),
         "int16_t": (-32768, 32767), "uint8_t": (0, 255), "int8_t": (-128, 127), "float": (-3.5e4, 2.0 ** 100), "char": (1, 126), "double": (-1.1e200, 2.5e-300)}


def value(typ, k):
    lo, hi = RANGE[typ]
    if k % 5 < 2:
        return (lo, hi)[k % 5]
    if typ in ("float", "double"):
        return struct.unpack("<f", struct.pack("<f", (1 if k % 2 else -1) * (0.1 + k * 1.7)))[0]
    return lo + (37 * (k + 1) * ((hi - lo) // 200 or 1) + k) % (hi - lo + 1)


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="dialect_")
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


def load(path):
    spec = importlib.util.spec_from_file_location("generated_dialect", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def layout(mid, name, fields):
    """the table row of a message, by the rules of the protocol"""
    w = sorted(fields, key=lambda f: -SIZES[f[1]])
    text = (name + " ").encode()
    for n, t, a in w:
        text += (t + " " + n + " ").encode() + (bytes([a]) if a else b"")
    crc = x25(text)
    return {"id": mid, "name": name, "declared": [f[0] for f in fields], "wire": [list(f) for f in w], "length": sum(SIZES[t] * max(a, 1) for _, t, a in w), "crc_extra": (crc & 0xFF) ^ (crc >> 8)}


def message(mod, m, shift, rec, partner=None):
    """the generated module builds and parses the message as its table row says, and so does the partner"""
    vals, k = {}, shift
    payload = b""
    for name, typ, arr in m["wire"]:
        chunk = [value(typ, k + i) for i in range(max(arr, 1))]
        k += max(arr, 1)
        payload += b"".join(struct.pack("<" + FMT[typ], v) for v in chunk)
        vals[name] = bytes(chunk) if typ == "char" else chunk if arr else chunk[0]
    seq, sysid, comp = [(0, 1, 0), (255, 255, 255), (7, 8, 9)][shift % 3]
    rec.at({"message": m["name"], "values": vals})
    body = bytes([len(payload), seq, sysid, comp, m["id"]]) + payload
    want = bytes([wire.STX]) + body + struct.pack("<H", wire.x25(body + bytes([m["crc_extra"]])))
    args = [vals[f] for f in m["declared"]]
    mods = [mod] + ([partner] if partner else [])
    for d in mods:
        mav = d.MAVLink(None, sysid, comp)
        mav.seq = seq
        got = bytes(getattr(mav, m["name"].lower() + "_encode")(*args).pack(mav))
        rec.check(got == want, f"{m['name']} built as {got.hex()} by {'the generated' if d is mod else 'the shipped'} dialect, expected {want.hex()}")
        p = d.MAVLink(None).decode(array("B", want) if d is not mod else bytearray(want))
        rec.check((p.get_msgId(), p.get_seq(), p.get_srcSystem(), p.get_srcComponent(), p.get_type()) == (m["id"], seq, sysid, comp, m["name"]), "header parsed differently")
        for name, exp in vals.items():
            v = p.format_attr(name)
            if isinstance(exp, bytes):
                v, exp = (v if isinstance(v, str) else bytes(v).decode("ascii")), exp.decode("ascii")
            rec.check((list(v) if isinstance(exp, list) else v) == exp, f"{m['name']}.{name} parsed as {v!r}, sent {exp!r}")
        for bad in (want[:-1] + bytes([want[-1] ^ 1]), want[:8] + bytes([want[8 % len(want)] ^ 128]) + want[9:], want[:-3] + want[-2:], want + b"\0"):
            if bad == want:
                continue
            try:
                d.MAVLink(None).decode(array("B", bad) if d is not mod else bytearray(bad))
                rec.fail(f"damaged frame of {m['name']} accepted")
            except d.MAVError:
                pass
        rec.step(2)
    rec.trace()
    rec.state((m["name"], shift))


def shipped(job, rec):
    name, part, parts = job
    mod, table, xml = SHIPPED[name]
    with Scratch() as tmp:
        out = os.path.join(tmp, "generated" + (".py" if part % 2 else ""))
        rec.at({"definition": xml, "output": out})
        dialect_creator(out, os.path.join(REPO, "mavlink_utils", xml))
        gen = load(os.path.join(tmp, "generated.py"))
        rec.check(sorted(os.listdir(tmp)) in (["generated.py"], ["__pycache__", "generated.py"]), f"wrote {os.listdir(tmp)}")
        rec.check(str(gen.WIRE_PROTOCOL_VERSION) == "1.0", f"wire protocol {gen.WIRE_PROTOCOL_VERSION}")
        ids = [i for i in gen.mavlink_map if i >= 0]
        rec.check(sorted(ids) == sorted(m["id"] for m in table), "messages generated differ from the definition")
        for m in table[part::parts]:
            cls = gen.mavlink_map[m["id"]]
            rec.check(list(cls.ordered_fieldnames) == [w[0] for w in m["wire"]] and list(cls.fieldnames) == m["declared"] and cls.crc_extra == m["crc_extra"], f"fields of {m['name']} differ")
            for shift in range(5):
                message(gen, m, shift, rec, mod)
        if part == 0:
            for enum, entries in MINI["enums"].items():
                for entry, v in entries:
                    rec.check(getattr(gen, entry, None) == v and gen.enums[enum][v].name == entry, f"{entry} is not {v}")
                    rec.step()
                    rec.state((name, entry))
    rec.sample({"definition": xml, "messages": len(table[part::parts])})


HEAD = '<?xml version="1.0"?>\n<mavlink>\n'


def definition(messages, enums="", include=""):
    out = [HEAD, include, "<version>3</version>\n<enums>" + enums + "</enums>\n<messages>\n"]
    for mid, name, fields in messages:
        out.append(f'<message id="{mid}" name="{name}"><description>x</description>' +
                   "".join(f'<field type="{t}{f"[{a}]" if a else ""}" name="{n}">d</field>' for n, t, a in fields) + "</message>\n")
    return "".join(out) + "</messages>\n</mavlink>\n"


TYPES = [(t, a) for t in SIZES for a in ((0, 2, 3) if t != "char" else (0, 2, 5))]


def field_lists(depth):
    """every list of at most depth fields; longer lists over one type of each size"""
    for n in range(1, depth + 1):
        for combo in itertools.product(TYPES, repeat=n):
            yield combo
    few = [("uint8_t", 0), ("int16_t", 2), ("float", 0), ("uint64_t", 0)]
    for n in (3, 4):
        yield from itertools.product(few, repeat=n)


def small(job, rec):
    """definitions of up to 250 messages each, together all small field lists"""
    chunk, number = job
    msgs = [(i if i < 253 else 255, f"M{number}_{i}", [(f"f{k}", t, a) for k, (t, a) in enumerate(combo)]) for i, combo in enumerate(chunk)]
    with Scratch() as tmp:
        xml = os.path.join(tmp, "defs.xml")
        with open(xml, "w") as f:
            f.write(definition(msgs))
        rec.at({"definition": number})
        dialect_creator(os.path.join(tmp, "out.py"), xml)
        gen = load(os.path.join(tmp, "out.py"))
        for i, m in enumerate(msgs):
            row = layout(*m)
            rec.check(gen.mavlink_map[m[0]].crc_extra == row["crc_extra"], f"checksum seed of {m}")
            for shift in (i % 5, i % 5 + 2):
                message(gen, row, shift, rec)
    rec.sample({"messages": len(msgs), "first": msgs[0]})


def enumerations(job, rec):
    """all enumerations of three entries with given, automatic and power values"""
    kinds = list(itertools.product((None, "0", "4", "0x10", "2**5"), repeat=3))[job::4]
    text, want = "", {}
    for i, ks in enumerate(kinds):
        top, vals = 0, []
        for k in ks:
            v = top + 1 if k is None else 2 ** 5 if "**" in k else int(k, 0)
            top = max(top, v)
            vals.append(v)
        if len(set(vals)) < 3:
            continue
        want[f"E{i}"] = vals
        text += f'<enum name="E{i}"><description>x</description>' + "".join(f'<entry name="E{i}_{j}"' + (f' value="{k}"' if k else "") + "/>" for j, k in enumerate(ks)) + "</enum>"
    with Scratch() as tmp:
        xml = os.path.join(tmp, "defs.xml")
        with open(xml, "w") as f:
            f.write(definition([(3, "AB", [("a", "uint8_t", 0)])], text))
        dialect_creator(os.path.join(tmp, "out.py"), xml, "python")
        gen = load(os.path.join(tmp, "out.py"))
        for name, vals in want.items():
            rec.at({"enum": name, "entries": kinds[int(name[1:])]})
            for j, v in enumerate(vals):
                rec.check(getattr(gen, f"{name}_{j}") == v and gen.enums[name][v].name == f"{name}_{j}", f"{name}_{j} is {getattr(gen, f'{name}_{j}')}, should be {v}")
            rec.step()
            rec.state((job, name))
    rec.trace()


BASE = [(1, "AB", [("a", "uint8_t", 0), ("b", "float", 3)]), (9, "CD", [("c", "int16_t", 0), ("d", "char", 4), ("e", "uint64_t", 0)])]


def other(job, rec):
    """included definitions, C output, wrong definitions, a second run over the first one's output"""
    rec.at({"case": job})
    with Scratch() as tmp:
        def put(name, text):
            with open(os.path.join(tmp, name), "w") as f:
                f.write(text)
            return os.path.join(tmp, name)
        base = put("base.xml", definition(BASE))
        out = os.path.join(tmp, "out.py")
        if job == "include":
            dialect_creator(out, put("top.xml", definition([(2, "EF", [("g", "int8_t", 0), ("h", "uint32_t", 0)])], include="<include>base.xml</include>\n")))
            gen = load(out)
            for m in BASE + [(2, "EF", [("g", "int8_t", 0), ("h", "uint32_t", 0)])]:
                for shift in range(5):
                    message(gen, layout(*m), shift, rec)
        elif job == "again":
            dialect_creator(out, base)
            dialect_creator(out, put("other.xml", definition([(1, "XY", [("z", "int32_t", 0)])])))
            gen = load(out)
            rec.check([i for i in gen.mavlink_map if i >= 0] == [1], "the earlier dialect shows in the later one")
            message(gen, layout(1, "XY", [("z", "int32_t", 0)]), 1, rec)
        elif job in ("C", "c"):
            for name, table, xml in (("base", [layout(*m) for m in BASE], base), ("HC_dialect", wire.TABLE, os.path.join(REPO, "mavlink_utils", "HC_dialect.xml")),
                                     ("minimal_dialect", MINI["messages"], os.path.join(REPO, "mavlink_utils", "minimal_dialect.xml"))):
                dialect_creator(os.path.join(tmp, "c_out"), xml, job)
                for m in table:
                    text = open(os.path.join(tmp, "c_out", name, f"mavlink_msg_{m['name'].lower()}.h")).read()
                    want = {f"MAVLINK_MSG_ID_{m['name']}": m["id"], f"MAVLINK_MSG_ID_{m['name']}_LEN": m["length"], f"MAVLINK_MSG_ID_{m['name']}_CRC": m["crc_extra"]}
                    for macro, v in want.items():
                        got = re.search(rf"^#define {macro} (\d+)\s*$", text, re.M)
                        rec.check(got is not None and int(got.group(1)) == v, f"{macro} is not {v}")
                    rec.step()
                    rec.state((job, name, m["name"]))
                rec.check('#define MAVLINK_STX 254' in "".join(open(os.path.join(tmp, "c_out", name, f)).read() for f in ("mavlink.h",)), "frame marker of the C output")
        else:
            bad = {"type": definition(BASE).replace("int16_t", "int17_t"), "element": definition(BASE).replace("<description>x</description>", "<nonsense/>"),
                   "order": definition(BASE).replace("<messages>", "<messages><field/>"), "duplicate id": definition(BASE).replace('id="9"', 'id="1"'),
                   "duplicate field": definition(BASE).replace('name="e"', 'name="c"'), "no name": definition(BASE).replace(' name="AB"', ""), "not xml": definition(BASE)[:-12]}[job]
            xml = put("bad.xml", bad)
            try:
                dialect_creator(out, xml)
            except (Exception, SystemExit):
                pass
            rec.check(not os.path.exists(out), "a wrong definition gave a dialect")
    rec.step()
    rec.trace()
    rec.state(job)


def run(ctx):
    combos = list(field_lists(1 if ctx.quick else 2))
    if ctx.quick:
        combos += [c for i, c in enumerate(itertools.product(TYPES, repeat=2))]
    else:
        combos += list(itertools.product(TYPES[::2], repeat=3))
    size = 250
    chunks = [(combos[i:i + size], i // size) for i in range(0, len(combos), size)]
    ctx.bounds = {"shipped": "both definitions of the repository: all messages with 5 value vectors, in both directions between the generated and the shipped dialect; all enumeration entries",
                  "small": f"all lists of up to two fields over 33 field types (11 types, single and arrays), lists of 3 and 4 over types of each size"
                  + ("" if ctx.quick else ", all lists of three over 17 types") + f": {len(combos)} messages", "enumerations": "all of three entries over 5 kinds of value",
                  "other": "include, regeneration, C output of all messages, 7 wrong definitions"}
    ctx.assumptions = ["the generator of the installed pymavlink is part of the system under test; mc/dialect_table.json and mc/minimal_table.json give the layout of the shipped definitions"]
    ctx.explore("shipped", shipped, [("HC", i, 8) for i in range(8)] + [("minimal", i, 2) for i in range(2)])
    ctx.explore("small", small, chunks)
    ctx.explore("enumerations", enumerations, range(4))
    ctx.explore("other", other, ["include", "again", "C", "c", "type", "element", "order", "duplicate id", "duplicate field", "no name", "not xml"])
