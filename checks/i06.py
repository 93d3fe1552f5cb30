"""I06: frame extraction and packing."""
from lvsa import hooks  # noqa: F401
from migen import *
from migen.genlib.cdc import MultiReg, PulseSynchronizer
from litex.soc.interconnect import stream
from .common import Delay

META = dict(
    title="Frame extraction packs every active pixel once, in order, frame-marked",
    statement="Every active pixel of a valid input enters exactly one memory word, in order, first pixel in the most significant lanes; in "
              "4:2:2 mode each 16-bit pixel is the luma of that pixel with the mean chroma of its pair (Cb with the first, Cr with "
              "the second, pairs counted from the start of each line), in RGB mode blue, green, red from bit 0. Words are complete, and "
              "exactly the first word after each vsync start carries the start mark. Words cross to the system clock in order; when one had "
              "to be dropped because the buffer was full, the overflow flag reports it until software clears it.",
    over=["inputs", "schedules", "configurations"],
    quant="all pixel streams and timings, consumer stalls, both modes, memory word widths, buffer depths",
    why="No bench; packing alignment over arbitrary line and frame timing and clock-crossing stalls is a property of all schedules.",
    files=["litevideo/input/analysis.py", "litevideo/csc/ycbcr444to422.py", "litevideo/csc/rgb2ycbcr.py"],
    mech=[("FrameExtraction", "litevideo/input/analysis.py:FrameExtraction"),
          ("YCbCr444to422", "litevideo/csc/ycbcr444to422.py:YCbCr444to422")],
    observe=["FrameExtraction.frame stream, overflow register"],
    technique="value numbering (AWZ) against a packing specification; LiteX AsyncFIFO on both sides",
    note="Colour conversion is the module decided in C01, used as an operator. In 4:2:2 mode vsync must start at least the conversion latency after the "
         "last active pixel (vsync is not delayed with the pixels), and lines must be separated by at least that latency.",
)


class Spec(Module):
    def __init__(self, m, dw, depth, mode, late_phase, shift=False):
        P = lambda x, n=1: self.add(x, n)
        start = Signal()
        vs = P(m.vsync)
        self.comb += start.eq((m.vsync == 1) & (vs == 0))
        if mode == "ycbcr422":
            from litevideo.csc.rgb2ycbcr import RGB2YCbCr
            from litevideo.csc.ycbcr444to422 import YCbCr444to422
            conv = ClockDomainsRenamer("pix")(RGB2YCbCr())
            self.submodules += conv
            L = conv.latency
            self.even = L % 2 == 0
            lat = L + YCbCr444to422.latency if hasattr(YCbCr444to422, "latency") else L + 3
            self.comb += [conv.sink.valid.eq(m.valid_i), conv.sink.r.eq(m.r), conv.sink.g.eq(m.g), conv.sink.b.eq(m.b), conv.source.ready.eq(1)]
            x = conv.source
            rise = Signal()
            de1 = P(m.de)
            self.comb += rise.eq((m.de == 1) & (de1 == 0))
            second = Signal()
            self.sync.pix += second.eq(Mux(P(rise, L) if late_phase else rise, 1, ~second))
            u, v, chroma = Signal(9), Signal(9), Signal(8)
            self.sync.pix += [If(second, u.eq(x.cb + P(x.cb)), v.eq(x.cr + P(x.cr))), chroma.eq(Mux(second, v >> 1, u >> 1))]
            pixel = Cat(P(x.y, 3), chroma)
            ok = P(x.valid, 3) & P(m.de, lat)
            w = 16
        else:
            pixel, ok, w = Cat(m.b, m.g, m.r, Signal(8)), m.valid_i & m.de, 32
        n = dw // w
        k, take = Signal(max=max(n, 2)), Signal()
        word, full, sof = Signal(dw), Signal(), Signal()
        self.comb += take.eq(ok & (start == 0))
        self.sync.pix += [
            If(start, k.eq(0)).Elif(take, k.eq(Mux(k == n - 1, 0, k + 1))),
            full.eq(take & (k == n - 1)),
            # equivalent ways of filling lanes: in place, or by shifting
            If(take, word.eq(Cat(pixel, word))) if shift else [If(take & (k == j), word[dw - w * (j + 1):dw - w * j].eq(pixel)) for j in range(n)],
            If(start, sof.eq(1)).Elif(full, sof.eq(0)),
        ]
        fifo = ClockDomainsRenamer({"write": "pix", "read": "sys"})(stream.AsyncFIFO([("sof", 1), ("pixels", dw)], depth))
        self.submodules += fifo
        self.o = fifo.source
        lost, clr = Signal(), Signal()
        self.comb += [fifo.sink.valid.eq(full), fifo.sink.pixels.eq(word), fifo.sink.sof.eq(sof), fifo.source.ready.eq(m.frame.ready)]
        self.sync.pix += If(full & ~fifo.sink.ready, lost.eq(1)).Elif(clr, lost.eq(0))
        req, ack = PulseSynchronizer("sys", "pix"), PulseSynchronizer("pix", "sys")
        self.submodules += req, ack
        seen, hide = Signal(), Signal()
        self.specials += MultiReg(lost, seen)
        self.comb += [req.i.eq(m._overflow.re), clr.eq(req.o), ack.i.eq(clr)]
        self.sync += If(m._overflow.re, hide.eq(1)).Elif(ack.o, hide.eq(0))
        self.flag = seen & ~hide

    def add(self, x, n):
        d = Delay(x, n, "pix")
        self.submodules += d
        return d.o


def run(c):
    from litevideo.input.analysis import FrameExtraction
    c.rule("The word stream in the system clock domain and the overflow register equal the packing specification.")
    cfgs = [(dw, mode, depth) for mode, dws in (("ycbcr422", (16, 32, 64, 128)), ("rgb", (32, 64, 128))) for dw in dws for depth in (512,)]
    cfgs += [(dw, mode, depth) for mode, dws in (("ycbcr422", (16, 32, 64, 128, 256)), ("rgb", (32, 64, 128, 256))) for dw in dws for depth in (
        (4, 16, 64, 1024) if c.tier == "quick" else (4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048))]
    cfgs += [(512, mode, depth) for mode in ("ycbcr422", "rgb") for depth in (4, 1024)]
    for dw, mode, depth in cfgs:
        label = "FrameExtraction(%d,%d,%s)" % (dw, depth, mode)
        m = c.elab(label, lambda: FrameExtraction(dw, depth, mode))
        if m is None:
            continue
        vs = []
        for late, shift in ((False, False), (True, False), (False, True), (True, True)):
            if late and mode != "ycbcr422" or shift and dw == (16 if mode == "ycbcr422" else 32):
                continue
            s = Spec(m, dw, depth, mode, late, shift)
            if mode == "ycbcr422" and not late and not s.even:
                continue
            f, o = m.frame, s.o
            vs.append((s, [("valid", f.valid == o.valid), ("pixels", f.pixels == o.pixels), ("start of frame", f.sof == o.sof),
                           ("overflow", m._overflow.w == s.flag)]))
        c.equiv_any(label, m, vs, free=[m.valid_i, m.vsync, m.de, m.r, m.g, m.b, m.frame.ready, m._overflow.re])


MIN_OBLIGATIONS = 20
