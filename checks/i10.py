"""I10: word error rate."""
from functools import reduce
from operator import or_
from lvsa import hooks  # noqa: F401
from migen import *
from migen.genlib.cdc import PulseSynchronizer
from .common import CTL, popcount

META = dict(
    title="The word error counter counts exactly each period's invalid characters",
    statement="A received character counts as an error exactly when its nine low bits have more than four transitions and are not those of a "
              "control character; no character that a DVI encoder can emit counts. Each 2^n-clock period's count is captured, "
              "transferred complete to the system clock domain, and returned by a status register that changes only on a software update request.",
    over=["inputs", "histories"],
    quant="all character streams, all disparity histories of the encoder, all period lengths",
    why="No bench; false errors on legal characters depend on the exact character values.",
    files=["litevideo/input/wer.py", "litevideo/input/common.py", "litevideo/output/hdmi/encoder.py"],
    mech=[("WER", "litevideo/input/wer.py:WER")],
    observe=["WER value register"],
    technique="value numbering (AWZ) against a counting specification; retimed encoder-to-counter composition in normal form",
    note="The character in the clock that closes a period is not counted. Software must not request an update in the transfer cycles.",
)


def errored(word):
    tr = popcount(word[i] ^ word[i + 1] for i in range(8))
    return (tr > 4) & ~reduce(or_, [word[:9] == (t & 0x1ff) for t in CTL])


class Spec(Module):
    def __init__(self, data, update, n):
        w, e, e1 = Signal(9), Signal(), Signal()
        self.sync.pix += [w.eq(data[:9]), e1.eq(errored(w)), e.eq(e1)]
        t, end = Signal(n), Signal()
        self.sync.pix += [t.eq(t + 1), end.eq(t == 2**n - 1)]
        cnt, res = Signal(n), Signal(n)
        got = Signal()
        self.sync.pix += [got.eq(end), If(end, res.eq(cnt), cnt.eq(0)).Elif(e, cnt.eq(cnt + 1))]
        ps = PulseSynchronizer("pix", "sys")
        self.submodules += ps
        self.comb += ps.i.eq(got)
        mid, self.value = Signal(n), Signal(n)
        self.sync += [If(ps.o, mid.eq(res)), If(update, self.value.eq(mid))]


class Link(Module):
    def __init__(self, e, m):
        self.comb += m.data.eq(e.out)


def run(c):
    from litevideo.input.wer import WER
    from litevideo.output.hdmi.encoder import Encoder
    c.rule("The captured count and the status register equal the counting specification; fed by the repository's encoder, the count is the constant 0.")
    for n in (24,) + tuple(range(2, 24)) + (28, 32):
        label = "WER(%d)" % n
        m = c.elab(label, (lambda: WER()) if n == 24 else lambda: WER(n))
        if m is None:
            continue
        c.widths(label, ("data", m.data, 9), ("value", m._value.status, n))
        if len(m._value.status) < n:
            continue
        s = Spec(m.data, m._update.re, n)
        c.equiv(label, m, s, [("value register bit %d" % i, m._value.status[i] == s.value[i]) for i in range(n)], free=[m.data, m._update.re], unroll="pix")
    e = c.elab("Encoder", lambda: ClockDomainsRenamer("pix")(Encoder()))
    m = c.elab("WER(8)", lambda: WER(8))
    if e is not None and m is not None:
        c.equiv("Encoder+WER", [e, m], Link(e, m), [("legal characters never count", m._value.status == 0)],
                free=[e.d, e.c, e.de, m._update.re], unroll="pix")


MIN_OBLIGATIONS = 30
