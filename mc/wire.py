"""Reference model of the wire format, from dialect_table.json (generated from the XML definition) only."""
import json
import os
import struct

TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "dialect_table.json")))
MSG = {m["id"]: m for m in TABLE}
LENGTH = {m["id"]: m["length"] for m in TABLE}
IDS = sorted(MSG)
STX = 0xFE
SIZES = {"uint64_t": 8, "int64_t": 8, "uint32_t": 4, "int32_t": 4, "float": 4, "uint16_t": 2, "int16_t": 2,
         "uint8_t": 1, "int8_t": 1, "char": 1}
FMT = {"uint64_t": "Q", "int64_t": "q", "uint32_t": "I", "int32_t": "i", "float": "f", "uint16_t": "H", "int16_t": "h",
       "uint8_t": "B", "int8_t": "b", "char": "B"}
_X25 = []
for _b in range(256):
    _c = _b
    for _ in range(8):
        _c = (_c >> 1) ^ 0x8408 if _c & 1 else _c >> 1
    _X25.append(_c)


def x25(data, crc=0xFFFF):
    for b in data:
        crc = (crc >> 8) ^ _X25[(crc ^ b) & 0xFF]
    return crc


def frame(msg_id, payload=None, seq=0, sys_id=1, comp_id=0):
    """a complete frame of the message"""
    if payload is None:
        payload = bytes((7 * i + 3 * msg_id + 1) % 256 for i in range(LENGTH[msg_id]))
    assert len(payload) == LENGTH[msg_id], (msg_id, len(payload))
    body = bytes([len(payload), seq, sys_id, comp_id, msg_id]) + payload
    return bytes([STX]) + body + struct.pack("<H", x25(body + bytes([MSG[msg_id]["crc_extra"]])))


def header_ok(b):
    return len(b) == 6 and b[0] == STX and LENGTH.get(b[5]) == b[1]


def frame_at(buf, i):
    """length of the complete, valid frame starting at byte i, or 0"""
    h = buf[i:i + 6]
    if not header_ok(h):
        return 0
    n = h[1] + 8
    f = buf[i:i + n]
    if len(f) != n:
        return 0
    if x25(f[1:-2] + bytes([MSG[h[5]]["crc_extra"]])) != f[-2] | f[-1] << 8:
        return 0
    return n


def segment(buf):
    """greedy left to right: (part per byte as one of 'HPCU', structure)"""
    parts, structure, i = ["U"] * len(buf), {}, 0
    while i < len(buf):
        n = frame_at(buf, i)
        if n:
            parts[i:i + n] = ["H"] * 6 + ["P"] * (n - 8) + ["C"] * 2
            structure[i] = buf[i + 5]
            i += n
        else:
            i += 1
    return parts, structure


def elements(msg_id):
    """(field, index or None, type, byte offset in payload) of every element of the payload, in wire order"""
    out, off = [], 0
    for name, typ, arr in MSG[msg_id]["wire"]:
        for k in range(max(arr, 1)):
            out.append((name, k if arr else None, typ, off))
            off += SIZES[typ]
    return out


def pack_payload(msg_id, values):
    """values: one number per element"""
    return b"".join(struct.pack("<" + FMT[e[2]], v) for e, v in zip(elements(msg_id), values))


def unpack_payload(msg_id, payload):
    return [struct.unpack_from("<" + FMT[e[2]], payload, e[3])[0] for e in elements(msg_id)]


def bits_of(b):
    return [(x >> (7 - i)) & 1 for x in b for i in range(8)]


GOOD = (b'\xfe\x13\x00\x01\x00\xd4\x92\x01K\x16+G\xc0D+\xf4\n?\x00\x00\x80?<\t\x01\x896\xfe\n\x01\x01\x00\xda'
        b'\x92\x01K\x16Z\x0c>\x10\x01d\xd0\xf5\xfe,\x02\x02\x00!\xd1\xffJ\x16\x12?\x97\x11\xb3"\xd2\x14\x00\x00'
        b'\xc8B\x00\x00\xc8B\x00\x00\xc8B\xef\xfa\x10@\xbe\x1b^>\xb1\xd4\xda>\x05\x9d\xb8=D\x0b}BZ\xb9\xfe\x0c'
        b'\x03\x01\xc8\xea\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xb6r')
assert segment(GOOD)[1] == {0: 212, 27: 218, 45: 33, 97: 234} and len(GOOD) == 117
