"""895 buffers recorded on a flight (runs/HC_eilat_July_2018/data/hc_to_ship.pickle, one buffer every 20 s)."""
import os
from mc import wire

SIZE = 153
STRUCTURE = {0: 33, 52: 234, 72: 30, 108: 212, 135: 218}
_RAW = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "flight.bin"), "rb").read()
BUFFERS = [_RAW[i:i + SIZE] for i in range(0, len(_RAW), SIZE)]


def sent(t, n):
    """bits of buffer t followed by parity like bits, n in all"""
    b = wire.bits_of(BUFFERS[t])
    return (b + [b[i] ^ b[(7 * i + 3) % len(b)] for i in range(n - len(b))])[:n]


def errors(t, n, weight):
    """bits damaged in buffer t: a different pattern each time"""
    return sorted({(53 * t + 97 * i * i + 11 * i) % n for i in range(weight)})


def outcomes(steps, n, first=0, rounds=1):
    """(channel, errors, answers of the code decoder) of a stretch of the flight, three in four buffers recovered"""
    out = []
    for t in range(steps):
        s = sent(first + t, n)
        bad = errors(t, n, t % 6)
        channel = [(1 - 2 * (b ^ (i in bad))) * ((3 * i + 5 * t) % 11 + 1) / 4 for i, b in enumerate(s)]
        if t % 3 == 1:  # samples that say nothing, where zeros were sent: taken as zeros
            for i in range(5 * t % 29, n, 31):
                if not s[i] and i not in bad:
                    channel[i] = 0.0
        answer = [(None, False)] * rounds if t % 4 == 3 else [(None, False)] * (t % rounds) + [(s, True)]
        out.append((channel, bad, answer))
    return out
