"""I03: channel deskew."""
from functools import reduce
from operator import or_, and_
from lvsa import hooks  # noqa: F401
from migen import *
from migen.genlib.cdc import MultiReg

META = dict(
    title="Channel synchronisation realigns the three channels without losing characters",
    statement="Every channel leaves the synchroniser as the same character sequence that entered it, unaltered: each pixel clock its "
              "output moves to the next character, except that a channel showing a control character waits while some other channel does not. "
              "Channels are reported synchronised after a clock in which all channels showed control characters, unsynchronised after a clock in "
              "which only some did or the input was not valid, and the status is unchanged during data.",
    over=["inputs", "schedules"],
    quant="all character sequences and all skews up to the buffer depth",
    why="No bench exists; deskew correctness quantifies over all relative delays of three streams.",
    files=["litevideo/input/chansync.py"],
    mech=[("_SyncBuffer", "litevideo/input/chansync.py:_SyncBuffer"), ("ChanSync", "litevideo/input/chansync.py:ChanSync")],
    observe=["ChanSync data_out0..2, chan_synced, status"],
    technique="value numbering (AWZ) against a ring-buffer specification; memory as an operator on both sides",
    note="Skew beyond the buffer depth is outside the statement (the buffer wraps). The Migen memory primitive is trusted.",
)


class Spec(Module):
    def __init__(self, valid, ins, depth):
        n = len(ins)
        self.outs = []
        ctl = Signal(n)
        for i, x in enumerate(ins):
            w = len(x)
            mem = Memory(w, depth)
            wp, rp = mem.get_port(write_capable=True, clock_domain="pix"), mem.get_port(async_read=True, clock_domain="pix")
            self.specials += mem, wp, rp
            wa, ra, o = Signal(max=depth), Signal(max=depth), Signal(w)
            inc = lambda a: Mux(a == depth - 1, 0, a + 1)
            self.comb += [wp.adr.eq(wa), wp.dat_w.eq(x), wp.we.eq(1), rp.adr.eq(ra), o.eq(rp.dat_r), ctl[i].eq(o[20] == 0)]
            self.sync.pix += [wa.eq(inc(wa)), If((ctl[i] == 0) | (ctl == 2**n - 1), ra.eq(inc(ra)))]
            self.outs.append(o)
        self.synced = Signal()
        self.sync.pix += If(valid == 0, self.synced.eq(0)).Elif(ctl != 0, self.synced.eq(ctl == 2**n - 1))
        self.status = Signal()
        self.specials += MultiReg(self.synced, self.status)


def run(c):
    from litevideo.input.chansync import ChanSync
    from litevideo.input.common import channel_layout
    c.rule("Channel outputs and synchronisation flag equal the ring-buffer specification.")
    c.req([tuple(x) for x in channel_layout] == [("raw", 10), ("d", 8), ("c", 2), ("de", 1)], "layout", "channel_layout",
          "channel_layout is not raw/d/c/de (10, 8, 2, 1 bits)")
    for n, depth in [(n, d) for n in (3, 1, 2, 4, 5, 8) for d in (8, 2, 3, 4, 5, 6, 7, 9, 12, 15, 16, 31, 32, 64)] + (
            [] if c.tier == "quick" else [(n, d) for n in range(1, 9) for d in range(2, 67)]):
        label = "ChanSync(%d,%d)" % (n, depth)
        m = c.elab(label, (lambda: ChanSync()) if (n, depth) == (3, 8) else lambda: ChanSync(n, depth))
        if m is None:
            continue
        ins = [getattr(m, "data_in%d" % i) for i in range(n)]
        outs = [getattr(m, "data_out%d" % i) for i in range(n)]
        cat = lambda r: Cat(r.raw, r.d, r.c, r.de)
        s = Spec(m.valid_i, [cat(r) for r in ins], depth)
        c.equiv(label, m, s, [("channel %d" % i, cat(o) == t) for i, (o, t) in enumerate(zip(outs, s.outs))] + [
            ("synchronised", m.chan_synced == s.synced), ("status", m._channels_synced.status == s.status)],
            free=[m.valid_i] + [x for r in ins for x in r.flatten()])


MIN_OBLIGATIONS = 10
