"""C02: YCbCr -> RGB."""
from lvsa import hooks  # noqa: F401
from migen import *
from .pipe import elastic, at, delayed
from .c01 import sat

META = dict(
    title="YCbCr to RGB conversion is exact, saturated and aligned for every pixel",
    statement="For every YCbCr triple, every valid/ready schedule and every width configuration, each accepted pixel leaves the converter "
              "exactly once, in order, with its own first/last markers, as the XAPP931 result r = sat(y' + floor(cr'*acoef)), "
              "g = sat(y' + floor(cb'*bcoef) + floor(cr'*ccoef)), b = sat(y' + floor(cb'*dcoef)) with y' = y - yoffset, "
              "c' = c - coffset, coefficients quantised to coef_w-2 bits; no intermediate overflow, no mixing of neighbouring pixels.",
    over=["inputs", "schedules", "configurations"],
    quant="all 2^24 YCbCr triples (including illegal ones), all stall schedules, several widths",
    why="The bench converts one image and never asserts on it; out-of-gamut triples that need saturation do not occur in it.",
    files=["litevideo/csc/ycbcr2rgb.py", "litevideo/csc/common.py"],
    mech=[("YCbCr2RGBDatapath", "litevideo/csc/ycbcr2rgb.py:YCbCr2RGBDatapath"), ("saturate", "litevideo/csc/common.py:saturate")],
    observe=["sink and source streams"],
    technique="value numbering: retimed feed-forward datapath in canonical (BDD) normal form against the wide-arithmetic equation, plus stall-hold dataflow",
    note="Bit-exact for every pixel in the analysed widths. Widths other than the listed ones are not covered.",
)


class Spec(Module):
    def __init__(self, sink, lat, w, cw):
        y, cb, cr = [d.o for d in delayed(self, sink, ["y", "cb", "cr"], lat)]
        ca, cb_, cc, cd = 0.1819, 0.0618, 0.5512, 0.6495
        k = cw - 2
        q = lambda v: int(v*2**k)
        nb = w + cw + 8
        y0, u, v, pa, pb, pc, pd = [Signal((nb, True)) for _ in range(7)]
        self.comb += [
            y0.eq(y - 2**(w - 4)), u.eq(cb - 2**(w - 1)), v.eq(cr - 2**(w - 1)),
            pa.eq(v*q(1/cd)), pb.eq(u*q(-cb_/(cc*(1 - ca - cb_)))), pc.eq(v*q(-ca/(cd*(1 - ca - cb_)))), pd.eq(u*q(1/cc)),
        ]
        self.r = sat(self, y0 + (pa >> k), w, nb)
        self.g = sat(self, y0 + (pb >> k) + (pc >> k), w, nb)
        self.b = sat(self, y0 + (pd >> k), w, nb)


def run(c):
    from litevideo.csc.ycbcr2rgb import YCbCr2RGB
    cfgs = [(8, 8), (6, 8), (8, 6), (8, 10), (10, 8), (5, 12)]
    cfgs += [(w, k) for w in range(4, 11) for k in ((6, 8, 9, 10, 12) if c.tier == "quick" else range(4, 15)) if w + k <= 19 and (w, k) not in cfgs]
    c.rule("For every pixel the retimed output word equals the conversion equation evaluated without width limits.")
    for w, cw in cfgs:
        label = "YCbCr2RGB(%d,%d,%d)" % (w, w, cw)
        m = c.elab(label, lambda: YCbCr2RGB(w, w, cw))
        if m is None:
            continue
        ce = elastic(c, label, m, m.latency)
        if ce is None:
            continue
        s = Spec(m.sink, m.latency, w, cw)
        for n in ("r", "g", "b"):
            c.equiv(label, m, s, [(n, getattr(m.source, n) == getattr(s, n))], fixed=at(ce, 1), free=[m.sink, m.source.ready], unroll=True)


MIN_OBLIGATIONS = 60
