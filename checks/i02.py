"""I02: character (word) alignment."""
from functools import reduce
from operator import or_
from lvsa import hooks  # noqa: F401
from migen import *
from migen.genlib.cdc import MultiReg
from .common import CTL

META = dict(
    title="Character alignment locks on control characters and never loses bits",
    statement="Of the serial bit stream delivered ten bits per pixel clock, the aligned output is at every clock the ten-bit window at the "
              "selected bit offset, so at a constant offset no bit is lost, repeated or reordered. The offset changes, and alignment is "
              "declared, only when the required number of consecutive windows each held a control character at an unchanged offset; the "
              "status registers report exactly the lock flag and the offset.",
    over=["inputs", "histories"],
    quant="all bit streams, all ten offsets, all numbers of required control characters",
    why="No bench exists; losing lock on data that resembles control characters is a property of all histories.",
    files=["litevideo/input/charsync.py", "litevideo/input/common.py"],
    mech=[("CharSync", "litevideo/input/charsync.py:CharSync")],
    observe=["CharSync.data, synced, CSR status"],
    technique="value numbering (AWZ) against an alignment specification",
    note="Once declared, alignment is not withdrawn (the code has no loss-of-lock condition). When several offsets match, the highest is used.",
)


class Spec(Module):
    def __init__(self, raw_data, need):
        bits = Signal(20)       # bit 0 is the oldest
        last = Signal(10)
        self.sync.pix += last.eq(raw_data)
        self.comb += bits.eq(Cat(last, raw_data))
        hit, pos, prev, off = Signal(), Signal(4), Signal(4), Signal(4)
        run = Signal(max=max(need, 2))
        self.synced, self.data = Signal(), Signal(10)
        match = [reduce(or_, [bits[i:i + 10] == t for t in CTL]) for i in range(10)]
        self.sync.pix += [hit.eq(reduce(or_, match)), prev.eq(pos)]
        for i in range(10):
            higher = reduce(or_, match[i + 1:]) if i < 9 else 0
            self.sync.pix += If(match[i] & (higher == 0), pos.eq(i))
        same = Signal()
        self.comb += same.eq(hit & (pos == prev))
        self.sync.pix += [
            run.eq(Mux(same, Mux(run == need - 1, 0, run + 1), 0)),
            If(same & (run == need - 1), self.synced.eq(1), off.eq(pos)),
            Case(off, dict([(i, self.data.eq(bits[i:i + 10])) for i in range(10)] + [("default", self.data.eq(0))])),
        ]
        self.st_synced, self.st_pos = Signal(), Signal(4)
        self.specials += MultiReg(self.synced, self.st_synced), MultiReg(off, self.st_pos)


def run(c):
    from litevideo.input.charsync import CharSync
    c.rule("Lock decision, window selection and status registers equal the alignment specification.")
    for need in (8, 2, 3, 4, 5, 7, 9, 16, 32, 63, 64) if c.tier == "quick" else tuple(range(2, 66)) + (127, 128, 129, 255, 256, 1000):
        label = "CharSync(%d)" % need
        m = c.elab(label, (lambda: CharSync()) if need == 8 else lambda: CharSync(need))
        if m is None:
            continue
        c.widths(label, ("raw data", m.raw_data, 10))
        s = Spec(m.raw_data, need)
        c.equiv(label, m, s, [("data window", m.data == s.data), ("lock", m.synced == s.synced),
                              ("lock status", m._char_synced.status == s.st_synced), ("offset status", m._ctl_pos.status == s.st_pos)],
                free=[m.raw_data])


MIN_OBLIGATIONS = 12
