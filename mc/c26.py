"""Turbo decoding: each decoder is given the channel plus only what the other one added, until one succeeds."""
import itertools
import numpy as np
from decoders.turbo import TurboDecoder
from mc.core import same


class Component:
    """answers with a scripted soft output and success flag"""

    def __init__(self, outputs):
        self.outputs, self.asked = outputs, []

    def decode_buffer(self, channel_word):
        self.asked.append(np.array(channel_word, dtype=float))
        llr, ok = self.outputs[len(self.asked) - 1]
        llr = np.array(llr, dtype=float)
        return np.array(llr < 0, dtype=np.int_), llr, ok, 4, np.zeros(1), np.zeros(1)

    decode = decode_buffer


CHANNELS = [(1.5, -2.0, 0.25), (-0.5, 0.75, -3.0)]
SOFT = [(2.0, -1.0, 4.0), (-3.5, 0.5, -0.75), (0.125, 6.0, -2.5)]
TX = (0, 1, 1)


def scripts(rounds):
    """all soft outputs, both failing until one succeeds or rounds are over"""
    total = 2 * rounds
    for stop in range(1, total + 2):  # the call that succeeds; total + 1: none
        for s in itertools.product(range(len(SOFT)), repeat=min(stop, total)):
            yield stop, s


def explore(job, rec):
    rounds, ci, debug = job
    channel = np.array(CHANNELS[ci])
    errors = [i for i in range(3) if int(channel[i] < 0) != TX[i]]
    for stop, s in scripts(rounds):
        rec.at({"rounds": rounds, "channel": CHANNELS[ci], "outputs": [SOFT[i] for i in s], "success at call": stop, "debug": debug})
        outs = [(SOFT[i], k + 1 == stop) for k, i in enumerate(s)]
        first, second = Component(outs[0::2]), Component(outs[1::2])
        arr = channel.copy()
        err = np.array(errors, dtype=np.int_)
        # a second buffer after the first one: nothing may be left over
        out = TurboDecoder(first, second, rounds, debug).decode_buffer(arr, err)
        prior1 = np.zeros(3)
        asked1, asked2 = [], []
        for r in range(rounds):
            asked1.append(channel + prior1)
            if stop == 2 * r + 1:
                break
            prior2 = np.array(outs[2 * r][0]) - channel - prior1
            asked2.append(channel + prior2)
            if stop == 2 * r + 2:
                break
            prior1 = np.array(outs[2 * r + 1][0]) - channel - prior2
        rec.check(arr.tolist() == list(CHANNELS[ci]) and err.tolist() == errors, "the inputs were changed")
        rec.check(len(first.asked) == len(asked1) and len(second.asked) == len(asked2), f"{len(first.asked)} and {len(second.asked)} calls, expected {len(asked1)} and {len(asked2)}")
        rec.check(same(first.asked, asked1), f"first decoder was given {[a.tolist() for a in first.asked]}, expected {[a.tolist() for a in asked1]}")
        rec.check(not asked2 or same(second.asked, asked2), f"second decoder was given {[a.tolist() for a in second.asked]}, expected {[a.tolist() for a in asked2]}")
        last = outs[min(stop, 2 * rounds) - 1]
        bits = [int(x < 0) for x in last[0]]
        rec.check(same(out[0], bits) and same(out[1], last[0]) and bool(out[2]) == last[1], f"returned {[np.asarray(o).tolist() for o in out[:3]]}, the last answer was {last}")
        rec.check(out[3] == (1 if stop % 2 and stop <= 2 * rounds else 2), f"decoder {out[3]} said to have answered")
        wrong = sum(a != b for a, b in zip(bits, TX)) if debug and not last[1] else 0
        rec.check(out[4] == wrong, f"{out[4]} remaining errors reported, expected {wrong}")
        rec.step(len(asked1) + len(asked2))
        rec.trace()
        rec.states_n(1)
    rec.sample({"rounds": rounds, "channel": CHANNELS[ci], "last outputs": [SOFT[i] for i in s], "returned": [np.asarray(o).tolist() for o in out]})


def reuse(job, rec):
    """one decoder for several buffers: nothing is left over"""
    rounds, = job
    for stops in itertools.product(range(1, 2 * rounds + 2), repeat=3):
        calls = []
        for st in stops:
            calls.append([(SOFT[(k + st) % 3], k + 1 == st) for k in range(min(st, 2 * rounds))])
        rec.at({"rounds": rounds, "success at call": stops})
        first, second = Component([o for c in calls for o in c[0::2]]), Component([o for c in calls for o in c[1::2]])
        shared = TurboDecoder(first, second, rounds)
        for n, c in enumerate(calls):
            channel = np.array(CHANNELS[n % 2])
            a, b = len(first.asked), len(second.asked)
            got = shared.decode_buffer(channel, np.array([], dtype=np.int_))
            f2, s2 = Component(c[0::2]), Component(c[1::2])
            want = TurboDecoder(f2, s2, rounds).decode_buffer(channel, np.array([], dtype=np.int_))
            rec.check(all(same(x, y) for x, y in zip(got, want)), "an earlier buffer influences a later one")
            rec.check(same(first.asked[a:], f2.asked) and len(second.asked) - b == len(s2.asked) and all(same(x, y) for x, y in zip(second.asked[b:], s2.asked)), "an earlier buffer influences what the decoders are given")
            rec.step()
        rec.trace()
        rec.states_n(1)


def many_rounds(job, rec):
    """up to 25 rounds on longer words, success at every possible call, one decoder for all"""
    rounds, size = job
    first, second = Component([]), Component([])
    dec = TurboDecoder(first, second, rounds)
    for stop in list(range(1, 2 * rounds + 2)) * 2:
        channel = np.array([(-1) ** (i * i // 3 + stop) * ((5 * i + 3 * stop) % 13 + 1) / 4 for i in range(size)])
        outs = [([(-1) ** (i * k // 5) * ((7 * i + 11 * k + stop) % 17 + 1) / 8 for i in range(size)], k + 1 == stop) for k in range(min(stop, 2 * rounds))]
        first.outputs, second.outputs, first.asked, second.asked = outs[0::2], outs[1::2], [], []
        rec.at({"rounds": rounds, "bits": size, "success at call": stop})
        out = dec.decode_buffer(channel.copy(), np.arange(stop % size, dtype=np.int_))
        asked, prior = [], np.zeros(size)
        for k, (soft, _) in enumerate(outs):
            asked.append(channel + prior)
            prior = np.array(soft) - channel - prior
        rec.check(len(first.asked) + len(second.asked) == len(asked), f"{len(first.asked)} and {len(second.asked)} calls, expected {len(asked)} in all")
        rec.check(same(first.asked, asked[0::2]) and (not asked[1::2] or same(second.asked, asked[1::2])), "a decoder was given something else")
        rec.check(same(out[1], outs[-1][0]) and same(out[0], [int(x < 0) for x in outs[-1][0]]) and bool(out[2]) == outs[-1][1], "the last answer is not what is returned")
        rec.check(out[3] == 1 + (len(outs) - 1) % 2, f"decoder {out[3]} said to have answered")
        rec.check(out[4] == 0, f"{out[4]} remaining errors counted without debugging")
        rec.step(len(asked))
        rec.trace()
        rec.state((job, stop))


def run(ctx):
    top = 3 if ctx.quick else 4
    ctx.bounds = {"scripts": f"up to {top} rounds, every point of success, every soft output of each call out of 3", "reuse": "three buffers, every point of success of each", "many": "1 to 25 rounds, words of 4, 40 and 200 bits, every point of success"}
    ctx.assumptions = ["at least one round"]
    ctx.explore("scripts", explore, [(r, c, d) for r in range(top, 0, -1) for c in range(2) for d in (False, True)])
    ctx.explore("reuse", reuse, [(r,) for r in range(1, top + 1)])
    ctx.explore("many", many_rounds, [(r, n) for r in (1, 2, 3, 5, 8, 10, 16, 20, 25) for n in (4, 40, 200)])
