"""I07: capture DMA."""
from functools import reduce
from operator import or_
from lvsa import hooks  # noqa: F401
from migen import *
from litedram.frontend.dma import LiteDRAMDMAWriter
from .common import Delay  # noqa: F401
from .pipe import imp
from .stubs import wport

META = dict(
    title="Capture DMA writes each frame once, into a loaded slot, within its bounds",
    statement="A captured frame is written, from its start-marked word on, to consecutive memory words beginning at the address of one slot that "
              "software has loaded, exactly the programmed number of words, each with its own data and none twice or skipped under any stall. "
              "Words before a start mark, and frames for which no slot is loaded, are discarded. After all data of a frame has left the port, that slot, "
              "and no other, is marked pending with the end address and raises its interrupt; a slot not loaded is never written to.",
    over=["inputs", "schedules", "configurations"],
    quant="all word streams, memory stalls, slot programming, numbers of slots and port widths",
    why="No bench; DMA containment under arbitrary stalls and software timing is a property of all schedules.",
    files=["litevideo/input/dma.py"],
    mech=[("_Slot", "litevideo/input/dma.py:_Slot"), ("_SlotArray", "litevideo/input/dma.py:_SlotArray"), ("DMA FSM", "litevideo/input/dma.py:DMA")],
    observe=["memory port", "slot status/address registers", "interrupt"],
    technique="value numbering (AWZ) of port commands, data and slot updates against a transfer specification",
    note="LiteDRAM's DMA writer is elaborated on both sides; LiteX CSR storage is an interface. A frame size of zero words, and software "
         "clearing a slot during its transfer, are outside the statement.",
)


class Spec(Module):
    def __init__(self, m, p, dw, aw, align, stat, addr, size, frame, up=False):
        n = len(stat)
        self.port = q = wport(dw, aw=aw)
        self.submodules.wr = wr = LiteDRAMDMAWriter(q)
        self.comb += [q.cmd.ready.eq(p.cmd.ready), q.wdata.ready.eq(p.wdata.ready)]
        sel, loaded, base = Signal(max=max(n, 2)), Signal(), Signal(aw)
        st = Signal(2)      # 0 wait for a start mark, 1 transfer, 2 drain
        a, left = Signal(aw), Signal(aw)
        done, last = Signal(), Signal()
        self.comb += [Case(sel, dict([(i, [loaded.eq(stat[i][0]), base.eq(addr[i] >> align)]) for i in range(n)] +
                                     [("default", [loaded.eq(stat[-1][0]), base.eq(addr[-1] >> align)])]))]
        # a new slot is picked when the current one is not loaded, or finishes: the lowest loaded one
        pick = 0
        for i in reversed(range(n)):
            pick = Mux(stat[i][0], i, pick) if i < n - 1 else i
        self.sync += If(((loaded == 0) | done) & reduce(or_, [s[0] for s in stat]), sel.eq(pick))
        self.ready = Signal()
        go = Signal()
        self.comb += [
            go.eq(loaded & frame.valid & frame.sof),
            wr.sink.valid.eq((st == 1) & frame.valid), wr.sink.address.eq(a), wr.sink.data.eq(frame.pixels),
            If(st == 0, self.ready.eq((loaded & frame.sof) == 0)).Elif(st == 1, self.ready.eq(wr.sink.ready)),
            done.eq((st == 2) & (q.wdata.valid == 0)),
        ]
        acc = Signal()
        self.comb += acc.eq((st == 1) & frame.valid & wr.sink.ready)
        self.sync += [
            If(st == 0, a.eq(base), If(go, st.eq(1))),
            If(acc, a.eq(a + 1), If(last, st.eq(2))),
            If(done, st.eq(0)),
        ]
        # equivalent ways of knowing the last word: words left, words written, or the address past the end
        if up:
            total, count = Signal(aw), Signal(aw)
            lm1, c1 = Signal(aw), Signal(aw)
            self.comb += [lm1.eq(total - 1), c1.eq(count + 1), last.eq([count == lm1, c1 == total, count == total - 1][up - 1])]
            self.sync += [If(st == 0, total.eq(size >> align), count.eq(0)), If(acc, count.eq(count + 1))]
        else:
            self.comb += last.eq(left == 1)
            self.sync += [If(st == 0, left.eq(size >> align)), If(acc, left.eq(left - 1))]
        self.done = [done & (sel == i) for i in range(n)]
        self.end = a


def run(c):
    from litevideo.input.dma import DMA
    c.rule("Write commands, write data, frame acceptance, slot updates and interrupt equal the transfer specification.")
    cfgs = [(dw, aw, n) for dw, aw in ((16, 24), (32, 24), (64, 20), (128, 28), (256, 24)) for n in (1, 2, 3, 4, 5, 6, 8)] if c.tier == "quick" else \
        [(dw, aw, n) for dw in (16, 32, 64, 128, 256, 512) for aw in (20, 24, 25, 28, 30) for n in range(1, 9)] + [(32, 24, 12), (64, 24, 16)]
    for dw, aw, n in cfgs:
        label = "DMA(%d,%d slots,aw=%d)" % (dw, n, aw)
        p = wport(dw, aw=aw)
        m = c.elab(label, lambda: DMA(p, n))
        if m is None:
            continue
        slots = [getattr(m._slot_array, "slot%d" % i) for i in range(n)]
        align = (dw // 8).bit_length() - 1
        stat, addr = [s._status for s in slots], [s._address for s in slots]
        c.req(all(len(a.storage) == aw + align for a in addr) and len(m._frame_size.storage) == aw + align, "register-width", "DMA",
              "%s: slot address or frame size registers cannot hold a byte address of the port" % label)
        m.ev.pending.finalize(32, "big")        # the field wiring that a CSR bank would elaborate
        storage = [x.storage for x in stat], [x.storage for x in addr]
        vs = []
        for up in (0, 1, 2, 3):
            s = Spec(m, p, dw, aw, align, *storage, m._frame_size.storage, m.frame, up)
            vs.append((s, obligations(m, p, s, stat, addr, dw, align, n)))
        c.equiv_any(label, [m, m.ev.pending], vs, free=[p.cmd.ready, p.wdata.ready, m.frame.valid, m.frame.sof, m.frame.pixels, m._frame_size.storage,
                                                        m.ev.enable.storage] + [x.storage for x in stat + addr])


def obligations(m, p, s, stat, addr, dw, align, n):
    q = s.port
    obls = [
        ("command valid", p.cmd.valid == q.cmd.valid),
        ("command address", imp(q.cmd.valid, p.cmd.addr == q.cmd.addr)),
        ("command is a write", imp(q.cmd.valid, p.cmd.we == 1)),
        ("data valid", p.wdata.valid == q.wdata.valid),
        ("data", imp(q.wdata.valid, p.wdata.data == q.wdata.data)),
        ("all bytes written", imp(q.wdata.valid, p.wdata.we == 2**(dw // 8) - 1)),
        ("frame word accepted", m.frame.ready == s.ready),
    ]
    for i in range(n):
        obls += [
            ("slot %d done" % i, stat[i].we == s.done[i]),
            ("slot %d becomes pending" % i, imp(stat[i].we, stat[i].dat_w == 2)),
            ("slot %d end address written" % i, addr[i].we == s.done[i]),
            ("slot %d end address" % i, imp(s.done[i], addr[i].dat_w == (s.end << align))),
        ]
    irq = reduce(or_, [x.storage[1] & m.ev.enable.storage[i] for i, x in enumerate(stat)])
    return obls + [("interrupt", m.ev.irq == irq)]


MIN_OBLIGATIONS = 60
