"""Shared specification fragments (independent of /repo)."""
from functools import reduce
from operator import add, or_, xor
from migen import *

# DVI 1.0 control characters, indexed by {C1,C0}
CTL = [0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011]


def sub(m, name, cls):
    """submodule `name` of m, or, should it have been renamed, its only submodule of class `cls`"""
    if isinstance(vars(m).get(name), Module):
        return vars(m)[name]
    l = [x for _, x in m._submodules if type(x).__name__ == cls]
    if len(l) != 1:
        from lvsa.ctx import Broken
        raise Broken("%s has no submodule %s (%s)" % (type(m).__name__, name, cls))
    return l[0]


class Delay(Module):
    """o = i delayed by n clocks of `cd` (taps[0] is undelayed)"""
    def __init__(self, i, n, cd="sys", reset=0):
        self.taps = [i]
        sync = getattr(self.sync, cd)
        for _ in range(n):
            r = Signal(len(i), reset=reset)
            sync += r.eq(self.taps[-1])
            self.taps.append(r)
        self.o = self.taps[-1]


def popcount(bits):
    return reduce(add, [b for b in bits])


def lt8(x):
    return x


class DVIEncoderSpec(Module):
    """DVI 1.0 section 3.2.2 encoder (figure 3-5), one output register, total latency `lat`."""
    def __init__(self, d, c, de, lat, cd="sys"):
        self.out = Signal(10)
        self.cnt = Signal((6, True))
        self.d_in = d
        self.submodules.dd = Delay(d, lat - 1, cd)
        self.submodules.dc = Delay(c, lat - 1, cd)
        self.submodules.dde = Delay(de, lat - 1, cd)
        D, C, DE = self.dd.o, self.dc.o, self.dde.o
        n1 = Signal(4)
        self.comb += n1.eq(popcount(D[i] for i in range(8)))
        use_xnor = Signal()
        self.comb += use_xnor.eq((n1 > 4) | ((n1 == 4) & (D[0] == 0)))
        qb = [D[0]]
        for i in range(1, 8):
            x = Signal()
            self.comb += x.eq(Mux(use_xnor, qb[-1] == D[i], qb[-1] != D[i]))
            qb.append(x)
        q = Signal(8)
        q8 = Signal()
        self.comb += [q.eq(Cat(*qb)), q8.eq(use_xnor == 0)]
        ones = Signal(4)
        diff = Signal((6, True))     # ones - zeros of the 8 data bits
        self.comb += [ones.eq(popcount(qb)), diff.eq(ones + ones - 8)]
        cnt = self.cnt
        word = Signal(10)
        inv = Signal()
        pos, neg = Signal(), Signal()
        self.comb += [pos.eq(cnt > 0), neg.eq(cnt < 0)]
        self.comb += [
            If((cnt == 0) | (diff == 0),
                inv.eq(q8 == 0)
            ).Else(
                inv.eq((pos & (diff > 0)) | (neg & (diff < 0)))
            ),
            word.eq(Cat(Mux(inv, q ^ 0xff, q), q8, inv)),
        ]
        # disparity of a 10-bit word: ones - zeros
        disp = Signal((6, True))
        wones = Signal(4)
        self.comb += [wones.eq(popcount(word[i] for i in range(10))), disp.eq(wones + wones - 10)]
        sync = getattr(self.sync, cd)
        sync += [
            If(DE, self.out.eq(word), cnt.eq(cnt + disp))
            .Else(self.out.eq(Array(CTL)[C]), cnt.eq(0))
        ]
