"""The stream parser: nothing lost, invented or reordered, however the stream is cut; senders number their messages."""
import itertools
import struct
import mavlink_utils.HC_dialect as hc
import mavlink_utils.minimal_dialect as mini
from mc import wire

MODS = {"HC_dialect": hc, "minimal_dialect": mini}


def whole(f):
    """a frame of announced length: does it carry a known id and a correct checksum?"""
    return f[5] in wire.MSG and struct.unpack("<H", f[-2:])[0] == wire.x25(f[1:-2] + bytes([wire.MSG[f[5]]["crc_extra"]]))


def reference(s):
    """(pieces, rest): pieces are (intact, bytes) in order"""
    out, i = [], 0
    while i < len(s):
        if s[i] not in (0xFE, 0xFD):
            out.append((False, s[i:i + 1]))
            i += 1
            continue
        if len(s) - i < 3:
            break
        n = s[i + 1] + (8 if s[i] == 0xFE else 12 + (13 if s[i + 2] & 1 else 0))
        if len(s) - i < n:
            break
        f = s[i:i + n]
        out.append((f[0] == 0xFE and whole(f), f))
        i += n
    return out, s[i:]


def describe(m):
    bad = m.get_type() == "BAD_DATA"
    return not bad, bytes(m.get_msgbuf())


def receive(mod, cuts, rec):
    """feed the pieces; what was delivered, checked against counters and callbacks"""
    mav = mod.MAVLink(None)
    mav.robust_parsing = True
    called, got = [], []
    mav.set_callback(lambda m, tag: called.append((tag, m)), "tag")
    for c in cuts:
        ms = mav.parse_buffer(c)
        rec.check(ms is None or len(ms) > 0, "an empty list of messages")
        got += ms or []
        rec.step()
    rec.check([m for _, m in called] == got and all(t == "tag" for t, _ in called), "the callback was not called once per delivery")
    bad = sum(m.get_type() == "BAD_DATA" for m in got)
    rec.check(mav.total_bytes_received == sum(map(len, cuts)) and mav.total_packets_received == len(got) and mav.total_receive_errors == bad,
              f"counted {mav.total_bytes_received} bytes, {mav.total_packets_received} packets, {mav.total_receive_errors} errors")
    rec.check(mav.buf_len() == len(reference(b"".join(cuts))[1]), f"{mav.buf_len()} bytes held back")
    return got


def verify(mod, s, cuts, want, rec, label):
    got = [describe(m) for m in receive(mod, cuts, rec)]
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        rec.fail(f"{label}: delivery {k} is {got[k:k + 1]}, expected {want[k:k + 1]} ({len(got)} of {len(want)})")


def fields(mod, m, f):
    p = mod.MAVLink(None).decode(__import__("array").array("B", f))
    return m == p and m.get_seq() == f[2] and m.get_srcSystem() == f[3] and m.get_srcComponent() == f[4] and m.get_msgId() == f[5] and bytes(m.get_payload()) == f[6:-2]


def chunks():
    f = wire.frame
    bad = bytearray(f(0, seq=3))
    bad[9] ^= 4
    return {"heartbeat": f(0, seq=1), "same": f(0, seq=2, sys_id=254, comp_id=253), "status": f(212, bytes(range(200, 219)) if wire.LENGTH[212] == 19 else None, 5),
            "damaged": bytes(bad), "unknown id": b"\xfe\x01\x00\x01\x01\xff\x07\x33\x44", "junk": b"\x00\x55", "marker": b"\xfe", "marker v2": b"\xfd\x02", "cut": f(33)[:9],
            "empty payload": b"\xfe\x00\x00\x00\x00\x00\x12\x34"}


CHUNKS = None


def streams(job, rec):
    mod, names = MODS[job[0]], job[1]
    cuts = job[2]
    for more in job[3]:
        s = b"".join(CHUNKS[n] for n in names + more)
        want, rest = reference(s)
        rec.at({"dialect": job[0], "chunks": names + more, "stream": s})
        rec.check(b"".join(b for _, b in want) + rest == s, "reference loses bytes")
        verify(mod, s, [s], want, rec, "at once")
        for m, (ok, f) in zip(receive(mod, [s], rec), want):
            rec.check(not ok or fields(mod, m, f), "a message differs from the frame it came in")
        verify(mod, s, [s[i:i + 1] for i in range(len(s))], want, rec, "byte by byte")
        mav, got = mod.MAVLink(None), []
        mav.robust_parsing = True
        m = mav.parse_char(s)
        while m is not None and len(got) <= len(want):
            got.append(describe(m))
            rec.check(mav.bytes_needed() >= 1, f"asks for {mav.bytes_needed()} bytes")
            m = mav.parse_char(b"")
        rec.check(got == want, f"message by message: {got}, expected {want}")
        rec.trace(2)
        for k in range(cuts and len(s) + 1):
            rec.at({"dialect": job[0], "chunks": names + more, "stream": s, "cut": k})
            verify(mod, s, [s[:k], s[k:]], want, rec, f"cut at {k}")
            rec.trace()
            for l in range(k, (len(s) + 1) if cuts > 1 else k):
                verify(mod, s, [s[:k], s[k:l], b"", s[l:]], want, rec, f"cut at {k} and {l}")
                rec.trace()
        rec.state((job[0], names + more))
    rec.sample({"dialect": job[0], "chunks": names + more, "delivered": want})


def needed(job, rec):
    """read exactly as many bytes as are asked for, as from a device: intact frames arrive with their last byte"""
    mod, names = MODS[job[0]], job[1]
    s = b"".join(CHUNKS[n] for n in names)
    want, rest = reference(s)
    for robust in (True, False):
        rec.at({"dialect": job[0], "chunks": names, "robust": robust})
        mav, pos, got, ends = mod.MAVLink(None), 0, [], []
        mav.robust_parsing = robust
        while pos < len(s):
            n = mav.bytes_needed()
            rec.check(n >= 1, "no bytes asked for")
            piece = s[pos:pos + n]
            pos = min(pos + n, len(s))
            rec.step()
            try:
                m = mav.parse_char(piece)
            except mod.MAVError:
                rec.check(not robust, "an error in spite of robust parsing")
                got.append(False)
                ends.append(pos)
                continue
            if m is not None:
                got.append(describe(m))
                ends.append(pos)
        expected = want if robust else [w if w[0] else False for w in want]
        rec.check(got == expected, f"delivered {got}, expected {expected}")
        rec.check(ends == list(itertools.accumulate(len(f) for _, f in want)), f"delivered after {ends} bytes")
        rec.trace()
    rec.state((job, "needed"))


def strict(job, rec):
    """without robust parsing, byte by byte: one error per run of junk and per damaged frame, every intact frame delivered"""
    mod, names = MODS[job[0]], job[1]
    s = b"".join(CHUNKS[n] for n in names)
    pieces, rest = reference(s)
    want, run, end = [], False, 0
    for ok, f in pieces:
        start, end = end, end + len(f)
        junk = f[0] not in (0xFE, 0xFD)
        if not (junk and run):
            want.append((end, f if ok else None))
        run = junk
    rec.at({"dialect": job[0], "chunks": names})
    mav, got = mod.MAVLink(None), []
    for i in range(len(s)):
        try:
            m = mav.parse_char(s[i:i + 1])
            if m is not None:
                got.append((i + 1, bytes(m.get_msgbuf())))
        except mod.MAVError:
            got.append((i + 1, None))
        rec.step()
    rec.check(got == want, f"events {got}, expected {want}")
    rec.trace()
    rec.state((job, "strict"))


def long_stream():
    """every message type in turn, 20 KB, junk and damaged frames in between"""
    out = []
    for k, mid in enumerate(wire.IDS * 3):
        f = wire.frame(mid, bytes((7 * k + j * j) % 256 for j in range(wire.LENGTH[mid])), k % 256, k % 5, k % 3)
        out.append(f if k % 11 != 5 else f[:-1] + bytes([f[-1] ^ 0x80]))
        if k % 17 == 3:
            out.append(b"\x01\x02\x03")
    return b"".join(out)


def long(job, rec):
    """one long stream, read in pieces of every size"""
    mod, s = MODS[job[0]], long_stream()
    want, _ = reference(s) if job[0] == "HC_dialect" else ([(ok and f[5] in mini.mavlink_map, f) for ok, f in reference(s)[0]], None)
    for size in job[1]:
        rec.at({"dialect": job[0], "stream": f"{len(s)} bytes: every message type three times", "read size": size})
        verify(mod, s, [s[i:i + size] for i in range(0, len(s), size)], want, rec, f"read by {size}")
        rec.trace()
        rec.states_n(1)


class Sink:
    def __init__(self, broken=()):
        self.data, self.calls, self.broken = b"", 0, broken

    def write(self, b):
        self.calls += 1
        if self.calls - 1 in self.broken:
            raise OSError("device gone")
        self.data += bytes(b)


def faults(job, rec):
    """writes that fail, at every subset of positions: the error reaches the sender and the message uses up no number"""
    name, n, start = job
    mod = MODS[name]
    for broken in itertools.chain.from_iterable(itertools.combinations(range(n), r) for r in range(n + 1)):
        rec.at({"dialect": name, "messages": n, "failing writes": broken, "first number": start})
        out = Sink(broken)
        mav = mod.MAVLink(out, 7, 8)
        mav.seq = start
        seq, want, done = start, b"", 0
        for k in range(n):
            try:
                mav.heartbeat_send(1, 2, 3, k, 5)
                failed = False
            except OSError:
                failed = True
            rec.check(failed == (k in broken), f"write {k}: error {'lost' if k in broken else 'raised'}")
            if not failed:
                want += wire.frame(0, struct.pack("<IBBBBB", k, 1, 2, 3, 5, 3), seq, 7, 8)
                seq, done = (seq + 1) % 256, done + 1
            rec.step()
        rec.check(out.data == want, f"wrote {out.data.hex()}, expected {want.hex()}")
        rec.check((mav.seq, mav.total_packets_sent, mav.total_bytes_sent) == (seq, done, len(want)), "sequence number or counters differ")
        rec.trace()
        rec.state((name, n, start, broken))


def sending(job, rec):
    name, script, start = job
    mod = MODS[name]
    rec.at({"dialect": name, "script": script, "first number": start})
    sinks = [Sink(), Sink()]
    mavs = [mod.MAVLink(sinks[0], 7, 8), mod.MAVLink(sinks[1], 9, 10)]
    sent = [b"", b""]
    calls = []
    for mv in mavs:
        mv.seq = start
        mv.set_send_callback(lambda m, t: calls.append(m), "t")
    beat = mavs[0].heartbeat_encode(1, 2, 3, 4, 5)
    seq = [start, start]
    for op in script:
        who, kind = op // 2, op % 2
        if kind:
            mavs[who].heartbeat_send(1, 2, 3, 4, 5)
        else:
            mavs[who].send(beat)  # the same object again
        payload = struct.pack("<IBBBBB", 4, 1, 2, 3, 5, 3)
        sent[who] += wire.frame(0, payload, seq[who], mavs[who].srcSystem, mavs[who].srcComponent)
        seq[who] = (seq[who] + 1) % 256
        rec.step()
    for who in (0, 1):
        rec.check(sinks[who].data == sent[who], f"sender {who} wrote {sinks[who].data.hex()}, expected {sent[who].hex()}")
        rec.check(mavs[who].seq == seq[who] and mavs[who].total_bytes_sent == len(sent[who]) and mavs[who].total_packets_sent == len(sent[who]) // 17,
                  "sequence number or counters differ")
    rec.check(len(calls) == len(script), "the callback was not called once per message")
    got = receive(mod, [sinks[0].data, sinks[1].data], rec)
    rec.check(b"".join(bytes(m.get_msgbuf()) for m in got) == sent[0] + sent[1], "messages sent are not those received")
    rec.trace()
    rec.state((name, len(script), script if len(script) < 9 else start, start))


def run(ctx):
    global CHUNKS
    CHUNKS = chunks()
    names = list(CHUNKS)
    depth = 3 if ctx.quick else 4
    ctx.bounds = {"streams": f"all of up to {depth} out of {len(names)} chunks (frames, damaged and cut frames, junk, lone markers); all single cuts up to {depth - 1} chunks, all pairs of cuts up to {depth - 2}",
                  "long": "a 20 KB stream of all messages read in pieces of every size up to " + ("47" if ctx.quick else "399") + " and 21 larger ones",
                  "sending": f"all interleavings of up to {6 if ctx.quick else 8} messages of two senders from numbers 0, 254, 255; 600 in a row; all subsets of failing writes among up to 6 (9) messages"}
    ctx.assumptions = ["MAVLink 2 frames (0xFD) occur only damaged", "robust parsing, or one byte at a time without it"]
    jobs, need = [], []
    for mod in MODS:
        for k in range(depth):
            for pre in itertools.product(names, repeat=k):
                jobs.append((mod, pre, 2 if k <= depth - 2 else 1, [()]))
                if k == depth - 1:
                    jobs.append((mod, pre, 0, [(n,) for n in names]))
    clean = ["heartbeat", "same", "status", "damaged", "unknown id", "empty payload"]
    need = [(m, s) for m in MODS for k in range(1, depth + 1) for s in itertools.product(clean, repeat=k)]
    st = [(m, s) for m in MODS for k in range(depth + 1) for s in itertools.product(names, repeat=k)]
    ctx.explore("streams", streams, jobs)
    ctx.explore("needed", needed, need)
    sizes = list(range(1, 48 if ctx.quick else 400)) + [63, 64, 255, 256, 257, 263, 280, 512, 1000, 1023, 1024, 2047, 2048, 3000, 4096, 5000, 8192, 12000, 16384, 20000, 10 ** 6]
    ctx.explore("long", long, [(m, sizes[i::16]) for m in MODS for i in range(16)])
    ctx.explore("strict", strict, st)
    ctx.explore("sending", sending, [(m, s, b) for m in MODS for k in range(1, 7 if ctx.quick else 9) for s in itertools.product(range(4), repeat=k) for b in (0, 254, 255)] +
                [(m, (0,) * 600, 0) for m in MODS])
    ctx.explore("faults", faults, [(m, n, b) for m in MODS for n in range(1, 7 if ctx.quick else 10) for b in (0, 254, 255)])
