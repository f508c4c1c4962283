"""A code decoder that records what it is asked and answers as the exploration decides, and the reference entropy model."""
import math
import numpy as np
from ldpc.decoder import LogSpaDecoder, WbfDecoder, GalBfDecoder
from mc.c18 import EPS, h2


class _Scripted:
    def __init__(self, n, k):
        self.n, self.k, self.m, self.max_iter = n, k, n - k, 20
        self.h = np.zeros((n - k, n), dtype=np.int_)
        for i in range(n - k):
            self.h[i, i % k] = self.h[i, k + i] = 1
        self.info_idx = np.array([i < k for i in range(n)])
        self.asked, self.kwargs, self.script, self.last = [], [], [], None

    def expect(self, *answers):
        """answers of the next calls: (word or None, success); None is the hard decision of the input"""
        self.script = list(answers)
        self.asked, self.kwargs, self.given = [], [], []

    def _answer(self, word, soft):
        word = np.array(word, dtype=float)
        if len(word) != self.n:
            raise ValueError("incorrect block size")
        self.asked.append(word.copy())
        want, success = self.script[min(len(self.asked), len(self.script)) - 1]
        hard = (word < 0) if (word < 0).any() else (word > 0 if not soft else np.zeros(self.n))
        est = np.array(hard if want is None else want, dtype=np.int_)
        c = len(self.asked)
        llr = word * 1.25 + (1 - 2 * est) * 0.375
        syn = np.zeros(self.m, dtype=np.int_)
        if not success:  # one or more failed checks
            syn[[(c + i) % self.m for i in range(1 + (c + int(est.sum())) % 3)]] = 1
        val = self.h.T @ syn
        out = (est, llr, bool(success), 3 + 2 * c if success or est.sum() % 3 else 0, syn, val)
        self.given.append(tuple(np.array(x) for x in out))
        return out if soft else (est,) + out[2:]


class SoftCode(_Scripted, LogSpaDecoder):
    def __init__(self, n, k):
        _Scripted.__init__(self, n, k)

    def decode(self, channel_word, max_iter=None):
        return self._answer(channel_word, True)


class WbfCode(_Scripted, WbfDecoder):
    def __init__(self, n, k):
        _Scripted.__init__(self, n, k)

    def decode(self, channel_llr, prior_reliability=None):
        self.kwargs.append(None if prior_reliability is None else np.array(prior_reliability, dtype=float))
        return self._answer(channel_llr, False)


class GalCode(_Scripted, GalBfDecoder):
    def __init__(self, n, k):
        _Scripted.__init__(self, n, k)

    def decode(self, channel_word):
        return self._answer(channel_word, False)


def confidence(size, center, slope):
    return 0.0 if size <= 1 else 1 / (1 + math.exp(-(size - center) * slope))


class Entropy:
    """one window of buffers per cluster and what it says of each model bit"""

    def __init__(self, clusters, length, threshold, window=None, center=40, slope=0.35, flip=0.0, fixed=None):
        self.length, self.threshold, self.window, self.center, self.slope, self.flip, self.fixed = length, threshold, window, center, slope, flip, fixed
        self.data = [[] for _ in range(clusters)]

    def size(self, label):
        return len(self.data[label])

    def p1(self, label):
        if self.fixed is not None:
            return [float(r[1]) for r in self.fixed[:self.length]]
        d = self.data[label]
        if not d:
            return []
        return [min(max((sum(w[i] for w in d) / len(d) - self.flip) / (1 - 2 * self.flip), 0), 1) for i in range(self.length)]

    def distribution(self, label):
        return [[1 - p, p] for p in self.p1(label)]

    def structural(self, label):
        return [i for i, p in enumerate(self.p1(label)) if h2(p) < self.threshold]

    def llr(self, label, n):
        out = [0.0] * n
        c = 1.0 if self.fixed is not None else confidence(self.size(label), self.center, self.slope)
        p = self.p1(label)
        for i in self.structural(label):
            out[i] = c * math.log((1 - p[i] + EPS) / (p[i] + EPS))
        return out

    def learn(self, label, bits):
        if self.fixed is None:
            self.data[label].append([int(b) for b in bits[:self.length]])
            if self.window is not None:
                self.data[label] = self.data[label][-self.window:]


class Labels:
    """which cluster a buffer belongs to: a classifier of its own, or taking turns"""

    def __init__(self, clusters, cluster, training):
        from inference.clustering import BufferClassifier
        self.n, self.turn = clusters, -1
        self.classifier = BufferClassifier(training, clusters) if cluster and clusters > 1 else None

    def of(self, bits):
        if self.n == 1:
            return 0
        if self.classifier is None:
            self.turn = (self.turn + 1) % self.n
            return self.turn
        return self.classifier.classify(np.array(bits, dtype=np.int_))
