"""C04: 8-bit pixels <-> half floats."""
from lvsa import hooks  # noqa: F401
from migen import *
from .pipe import elastic, at, delayed, imp

META = dict(
    title="Pixel and half-float conversions are exact and inverse of each other",
    statement="Each 8-bit component p leaves RGB2RGB16f (and the lookup-table variant) as the half-precision encoding of exactly p/256, "
              "0 as +0; each half float x in [0,1] leaves RGB16f2RGB as min(255, floor(256*x)), so that a round trip "
              "is the identity; components never mix, markers and data stay aligned and stalls lose nothing.",
    over=["inputs", "schedules"],
    quant="all 256 pixel values, all half floats in [0,1], all stall schedules",
    why="The benches convert one image and never assert on the result; black, full intensity and subnormals are not checked.",
    files=["litevideo/csc/rgb2rgb16f.py", "litevideo/csc/rgb16f2rgb.py", "litevideo/float_arithmetic/common.py"],
    mech=[("PIX2PIXFDatapath", "litevideo/csc/rgb2rgb16f.py:PIX2PIXFDatapath"), ("PIX2PIXFLUT", "litevideo/csc/rgb2rgb16f.py:PIX2PIXFLUT"),
          ("PIXF2PIXDatapath", "litevideo/csc/rgb16f2rgb.py:PIXF2PIXDatapath"), ("LeadOne", "litevideo/float_arithmetic/common.py:LeadOne")],
    observe=["sink and source streams"],
    technique="value numbering: retimed datapath in canonical (BDD) normal form against the number-format definition; stall-hold dataflow",
    note="Exact for every input of the stated ranges (negative, infinite and NaN inputs excluded).",
)


def enc(m, p):
    """half-float encoding of p/256"""
    o = Signal(16)
    m.comb += o.eq(0)
    for k in range(8):      # leading one at bit k: (1 + f/2^k) * 2^(k-8)
        m.comb += If(p[k], o.eq(((k - 8 + 15) << 10) | ((p & (2**k - 1)) << (10 - k))))
    return o


def dec(m, x):
    o = Signal(8)
    e, f = x[10:15], x[:10]
    cases = {15: o.eq(255), "default": o.eq(0)}
    for k in range(7, 15):      # x*256 = (1024+f) * 2^(k-15-10+8)
        cases[k] = o.eq((1024 + f) >> (17 - k))
    m.comb += Case(e, cases)
    return o


class Enc(Module):
    def __init__(self, sink, names, lat):
        self.o = [enc(self, d.o) for d in delayed(self, sink, names, lat)]


class Dec(Module):
    def __init__(self, sink, names, lat):
        ds = [d.o for d in delayed(self, sink, names, lat)]
        self.o = [dec(self, d) for d in ds]
        self.dom = [(d[15] == 0) & (d[:15] <= 15 << 10) for d in ds]


def run(c):
    from litevideo.csc.rgb2rgb16f import RGB2RGB16f, PIX2PIXFLUT
    from litevideo.csc.rgb16f2rgb import RGB16f2RGB
    c.rule("Every output component equals the number-format definition of its own input component.")
    m = c.elab("RGB2RGB16f", RGB2RGB16f)
    if m is not None:
        ce = elastic(c, "RGB2RGB16f", m, m.latency)
        if ce is not None:
            s = Enc(m.sink, "rgb", m.latency)
            c.equiv("RGB2RGB16f", m, s, [("%sf is the half float of %s/256" % (n, n), getattr(m.source, n + "f") == o)
                                         for n, o in zip("rgb", s.o)], fixed=at(ce, 1), free=[m.sink, m.source.ready], unroll=True)
    m = c.elab("PIX2PIXFLUT", lambda: PIX2PIXFLUT(8, 16))
    if m is not None:
        s = Enc(m.sink, ["pix"], m.latency)
        c.equiv("PIX2PIXFLUT", m, s, [("lookup table entry", m.source.pixf == s.o[0])], fixed={m.ce: 1}, free=[m.sink], unroll=True)
    m = c.elab("RGB16f2RGB", RGB16f2RGB)
    if m is not None:
        ce = elastic(c, "RGB16f2RGB", m, m.latency)
        if ce is not None:
            s = Dec(m.sink, ["rf", "gf", "bf"], m.latency)
            c.equiv("RGB16f2RGB", m, s, [("%s is floor(256*%sf)" % (n, n), imp(do, getattr(m.source, n) == o))
                                         for n, o, do in zip("rgb", s.o, s.dom)], fixed=at(ce, 1), free=[m.sink, m.source.ready], unroll=True)


MIN_OBLIGATIONS = 20
