"""One-off generator of mc/dialect_table.json: the wire layout of every message, computed from the
dialect's XML definition by the rules of the MAVLink 1 serialization guide (not from the generated Python).

Usage: python gen_dialect_table.py <HC_dialect.xml>
       python gen_dialect_table.py <minimal_dialect.xml> minimal   (mc/minimal_table.json: messages and enums)
"""
import json
import os
import re
import sys
import xml.etree.ElementTree as ET

SIZES = {"uint64_t": 8, "int64_t": 8, "double": 8, "uint32_t": 4, "int32_t": 4, "float": 4, "uint16_t": 2,
         "int16_t": 2, "uint8_t": 1, "int8_t": 1, "char": 1}


def x25(data, crc=0xFFFF):
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ 0x8408 if crc & 1 else crc >> 1
    return crc


def enums(path):
    """name -> [entry, value]; entries without a value follow the highest one so far, the first being one"""
    out = {}
    for e in ET.parse(path).getroot().iter("enum"):
        top, entries = 0, []
        for en in e.iter("entry"):
            v = en.get("value")
            v = top + 1 if v is None else 2 ** int(v.split("**")[1]) if "**" in v else int(v, 0)
            top = max(top, v)
            entries.append([en.get("name"), v])
        out[e.get("name")] = entries
    return out


def main(path, kind=""):
    out = []
    for msg in ET.parse(path).getroot().iter("message"):
        fields = []
        for f in msg.iter("field"):
            t = f.get("type")
            if t == "uint8_t_mavlink_version":
                t = "uint8_t"
            m = re.fullmatch(r"(\w+)\[(\d+)\]", t)
            fields.append((f.get("name"), m.group(1) if m else t, int(m.group(2)) if m else 0))
        wire = sorted(fields, key=lambda f: -SIZES[f[1]])
        text = (msg.get("name") + " ").encode()
        for n, t, a in wire:
            text += (t + " " + n + " ").encode() + (bytes([a]) if a else b"")
        crc = x25(text)
        out.append({"id": int(msg.get("id")), "name": msg.get("name"),
                    "declared": [f[0] for f in fields],
                    "wire": [list(f) for f in wire],
                    "length": sum(SIZES[t] * max(a, 1) for _, t, a in wire),
                    "crc_extra": (crc & 0xFF) ^ (crc >> 8)})
    out.sort(key=lambda m: m["id"])
    here = os.path.dirname(os.path.abspath(__file__))
    rows = "[\n" + ",\n".join(json.dumps(m) for m in out) + "\n]"
    if kind:
        with open(os.path.join(here, kind + "_table.json"), "w") as f:
            f.write('{"messages": ' + rows + ',\n"enums": ' + json.dumps(enums(path)) + "}\n")
    else:
        with open(os.path.join(here, "dialect_table.json"), "w") as f:
            f.write(rows + "\n")


if __name__ == "__main__":
    main(*sys.argv[1:])
