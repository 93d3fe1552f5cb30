"""I05: sync polarity correction and resolution detection."""
from lvsa import hooks  # noqa: F401
from migen import *
from migen.genlib.cdc import MultiReg
from .common import Delay

META = dict(
    title="Sync polarity is normalised and the reported resolution is the measured one",
    statement="Pixel data, data enable and validity leave the polarity stage aligned, one clock later, channels 2,1,0 as r,g,b; hsync and vsync "
              "are channel 0's control bits relative to their value at the end of the last active line, hence inactive-low whatever the "
              "source's polarity. The reported width is the number of active clocks of the last complete line, the reported height the number of active "
              "lines between the last two vsync starts, both 0 while the input is not valid.",
    over=["inputs", "histories"],
    quant="all pixel streams, polarities and resolutions up to the counter width",
    why="No bench; correctness over every timing and polarity is a property of all streams.",
    files=["litevideo/input/analysis.py"],
    mech=[("SyncPolarity", "litevideo/input/analysis.py:SyncPolarity"), ("ResolutionDetection", "litevideo/input/analysis.py:ResolutionDetection")],
    observe=["SyncPolarity outputs", "hres and vres registers"],
    technique="value numbering (AWZ) against a measurement specification",
    note="Resolutions wrap at the counter width. The raw copies for re-timing are registered in the pix_o domain.",
)


class PolSpec(Module):
    def __init__(self, m, de):
        D = lambda x, cd="pix": self.add(x, cd)
        self.valid, self.r, self.g, self.b = D(m.valid_i), D(m.data_in2.d), D(m.data_in1.d), D(m.data_in0.d)
        self.de = D(de)
        self.raw = [D(getattr(m, "data_in%d" % i).raw, "pix_o") for i in range(3)]
        rest, rel = Signal(2), Signal(2)
        end = Signal()
        self.comb += end.eq((self.de == 1) & (de == 0))
        # relative to the level at the end of the line; at that clock itself the difference is none
        self.sync.pix += [If(end, rest.eq(m.data_in0.c)), rel.eq(Mux(end, 0, m.data_in0.c ^ rest))]
        self.h, self.v, self.end = rel[0], rel[1], end

    def add(self, x, cd):
        d = Delay(x, 1, cd)
        self.submodules += d
        return d.o


class ResSpec(Module):
    def __init__(self, m, n):
        de, vs = Delay(m.de, 1, "pix"), Delay(m.vsync, 1, "pix")
        self.submodules += de, vs
        eol, sof = Signal(), Signal()
        self.comb += [eol.eq((de.o == 1) & (m.de == 0)), sof.eq((vs.o == 0) & (m.vsync == 1))]
        w, h, W, H = [Signal(n) for _ in range(4)]
        self.sync.pix += [
            w.eq(Mux(m.valid_i & m.de, w + 1, 0)),
            If(m.valid_i & sof, h.eq(0)).Elif(eol, h.eq(h + 1)),
            If(m.valid_i == 0, W.eq(0), H.eq(0)).Else(If(eol, W.eq(w)), If(sof, H.eq(h))),
        ]
        self.W, self.H = Signal(n), Signal(n)
        self.specials += MultiReg(W, self.W), MultiReg(H, self.H)


def run(c):
    from litevideo.input.analysis import SyncPolarity, ResolutionDetection
    c.rule("Polarity stage outputs and measured resolution equal their specification.")
    for hdmi in (False, True):
        label = "SyncPolarity(hdmi=%s)" % hdmi
        m = c.elab(label, lambda: SyncPolarity(hdmi))
        if m is None:
            continue
        ins = [getattr(m, "data_in%d" % i) for i in range(3)]
        free = [m.valid_i] + [x for r in ins for x in r.flatten()] + ([m.de_int] if hdmi else [])
        s = PolSpec(m, m.de_int if hdmi else m.data_in0.de)
        c.equiv(label, m, s, [("valid", m.valid_o == s.valid), ("de", m.de == s.de), ("hsync", m.hsync == s.h), ("vsync", m.vsync == s.v),
                              ("red", m.r == s.r), ("green", m.g == s.g), ("blue", m.b == s.b), ] + ([("end of line mark", m.de_rising == s.end)] if hasattr(m, "de_rising") else []) +
                [("raw copy %d" % i, getattr(m, "c%d" % i) == s.raw[i]) for i in range(3)], free=free)
    for n in range(2, 17) if c.tier == "quick" else range(2, 33):
        label = "ResolutionDetection(%d)" % n
        m = c.elab(label, (lambda: ResolutionDetection()) if n == 11 else lambda: ResolutionDetection(n))
        if m is None:
            continue
        s = ResSpec(m, n)
        c.equiv(label, m, s, [("width", m._hres.status == s.W), ("height", m._vres.status == s.H)], free=[m.valid_i, m.vsync, m.de])


MIN_OBLIGATIONS = 20
