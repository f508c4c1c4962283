"""Reference of the buffer model: which bits belong to which field, and one window of samples per field."""
import math
import struct
from mc import wire
from mc.c11 import Ref

HEADER = ("magic", "{}_mlen", "seq", "srcSystem", "{}_srcComponent", "{}_msgId")


def layout(structure):
    """(name, type, first bit, number of bits) of every field element"""
    out = []
    for start, mid in structure.items():
        name = wire.MSG[mid]["name"]
        for k, h in enumerate(HEADER):
            out.append((h.format(name), "uint8_t", (start + k) * 8, 8))
        for field, idx, typ, off in wire.elements(mid):
            full = f"{name}_{field}" + ("" if idx is None else f"[{idx}]")
            out.append((full, typ, (start + 6 + off) * 8, wire.SIZES[typ] * 8))
    return out


def values(buf, structure):
    return [struct.unpack("<" + wire.FMT[t], buf[b // 8:(b + n) // 8])[0] for _, t, b, n in layout(structure)]


class RefModel:
    def __init__(self, window=None):
        self.window, self.fields, self.size = window, {}, 0

    def add_sample(self, name, v):
        if name not in self.fields:
            self.fields[name] = Ref(self.window)
        self.fields[name].add(v)

    def add_buffer(self, buf, structure):
        for (name, *_), v in zip(layout(structure), values(buf, structure)):
            self.add_sample(name, v)
        self.size = self.size + 1 if self.window is None else min(self.size + 1, self.window)

    def predict(self, buf, structure):
        fields, prob, std = [], [math.nan] * (8 * len(buf)), [math.nan] * (8 * len(buf))
        for (name, _, b, n), v in zip(layout(structure), values(buf, structure)):
            p, s = math.nan, math.nan
            if name in self.fields:
                m, sd = self.fields[name].fit()
                if not math.isnan(m) and not math.isnan(v):
                    p, s = self.fields[name].classify(v)
                elif not math.isnan(m):
                    p, s = (0, 0) if sd == 0 else (math.nan, sd)
                prob[b:b + n], std[b:b + n] = [p] * n, [s] * n
            fields.append((name, p, s))
        return fields, prob, std
