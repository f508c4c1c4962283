"""Registering buffers with a structure: only buffers that adhere, counted and kept in order, refusals change nothing."""
import itertools
from inference.buffer_segmentation import BufferStructure
from mc import wire
from mc.core import debruijn

F = wire.frame
A, B = F(0), F(0, bytes(9), 1, 2, 3)
AB, BA, ABA = F(0) + F(30), F(30) + F(0), F(0) + F(30) + F(0, seq=5)
ALIEN = bytes((254, 9, 0, 0, 0, 3)) + bytes(60)      # id 3 does not exist
BUFFERS = {"a": A, "b": B, "ab": AB, "ba": BA, "aba": ABA, "short": A[:5], "ab_cut": AB[:20], "ab_half": AB[:30], "good": wire.GOOD, "empty": b"",
           "damaged": AB[:10] + bytes([AB[10] ^ 1]) + AB[11:], "alien": ALIEN, "bad_marker": b"\x00" + AB[1:]}
STRUCTURES = [{}, {0: 0}, {0: 0, 17: 30}, {17: 30, 0: 0}, {0: 30, 36: 0}, {0: 0, 17: 30, 53: 0}, {17: 30}, {53: 0},
              {0: 212, 27: 218, 45: 33, 97: 234}, {97: 234}, {0: 30, 17: 0}, {0: 0, 17: 0}]


def adheres(structure, buf):
    """True / False, or None where the buffer has no header of a known message at a position (it must not be accepted)"""
    for i, mid in structure.items():
        h = buf[i:i + 6]
        if len(h) != 6 or h[5] not in wire.LENGTH:
            return None
        if h[5] != mid:
            return False
    return True


def histories(job, rec):
    """every registration history over two structures"""
    s1, s2, first, depth = job
    ops = [(w, n) for w in (0, 1) for n in BUFFERS]
    for n in range(depth):
        for rest in itertools.product(ops, repeat=n):
            hist = (first,) + rest
            rec.at({"structures": [s1, s2], "history": hist})
            objs = [BufferStructure(dict(s1)), BufferStructure(dict(s2))]
            kept = [[], []]
            for w, name in hist:
                buf = BUFFERS[name]
                want = adheres((s1, s2)[w], buf)
                try:
                    a = objs[w].adheres_to_structure(buf)
                except Exception:
                    rec.check(want is None, f"adherence of {name} raised")
                    a = False
                rec.check(bool(a) == bool(want), f"{name} adheres to {(s1, s2)[w]}: {a}, expected {want}")
                try:
                    objs[w].register_buffer(buf)
                    rec.check(want is True, f"{name} registered with {(s1, s2)[w]}")
                    kept[w].append(buf)
                except ValueError:
                    rec.check(not want, f"{name} refused by {(s1, s2)[w]}")
                except Exception as e:
                    rec.check(want is None, f"{name} refused by {(s1, s2)[w]} with {type(e).__name__}")
                for k in (0, 1):
                    rec.check(list(objs[k].received_buffers) == kept[k] and objs[k].reception_count == len(kept[k]),
                              f"structure {k} holds {objs[k].reception_count} buffers, {len(kept[k])} were accepted")
                    rec.check(dict(objs[k].structure) == (s1, s2)[k] and len(objs[k]) == len((s1, s2)[k]), "the structure itself changed")
                rec.step()
            rec.check((objs[0] == objs[1]) == (s1 == s2) and objs[0] == dict(s1) and (objs[0] == dict(s2)) == (s1 == s2),
                      "equality of structures depends on what was received")
            rec.check(not objs[0] == 7 and not objs[0] == None, "a structure equals something else")  # noqa: E711
            rec.trace()
            rec.state((str(s1), str(s2), hist))


def long_history(job, rec):
    """one history that contains every pair (thorough triple) of registrations"""
    structure, depth = job
    names = list(BUFFERS)
    obj, kept = BufferStructure(dict(structure)), []
    for t, i in enumerate(debruijn(len(names), depth)):
        buf = BUFFERS[names[i]]
        rec.at({"structure": structure, "registrations so far": t, "next": names[i]})
        want = adheres(structure, buf)
        try:
            obj.register_buffer(buf)
            rec.check(want is True, f"{names[i]} registered")
            kept.append(buf)
        except Exception as e:
            rec.check(want is None or want is False and isinstance(e, ValueError), f"{names[i]} refused with {type(e).__name__}")
        rec.check(obj.reception_count == len(kept) and len(obj.received_buffers) == len(kept) and list(obj.received_buffers)[-3:] == kept[-3:], f"{obj.reception_count} counted, {len(kept)} accepted")
        rec.step()
        rec.state(("long", str(structure), t))
    rec.check(list(obj.received_buffers) == kept and obj == dict(structure), "buffers kept differ")
    rec.trace()


def run(ctx):
    depth = 2 if ctx.quick else 3
    pairs = [(a, b) for a in STRUCTURES for b in STRUCTURES]
    ctx.bounds = {"structures": f"all pairs of {len(STRUCTURES)}", "histories": f"all up to {depth} registrations of {len(BUFFERS)} buffers into either; one with every pair (thorough triple)"}
    ctx.explore("histories", histories, [(a, b, (w, n), depth) for a, b in pairs for w in (0, 1) for n in BUFFERS])
    rec_jobs = [(a, b, (0, n), 4 if ctx.quick else 5) for a, b in (({0: 0, 17: 30}, {0: 0, 17: 30}),) for n in ("ab", "aba")]
    small = {k: BUFFERS[k] for k in ("ab", "aba", "ba")}

    def deep(job, rec):
        global BUFFERS
        BUFFERS = small
        histories(job, rec)
    ctx.explore("long", long_history, [(s, 2 if ctx.quick else 3) for s in STRUCTURES])
    ctx.explore("deep", deep, rec_jobs)
