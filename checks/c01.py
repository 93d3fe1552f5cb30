"""C01: RGB -> YCbCr."""
from lvsa import hooks  # noqa: F401
from migen import *
from .pipe import elastic, at, delayed

META = dict(
    title="RGB to YCbCr conversion is exact, saturated and aligned for every pixel",
    statement="For every RGB triple, every valid/ready schedule and every width configuration, each accepted pixel leaves the converter "
              "exactly once, in order, with its own first/last markers, as y = sat(floor(ca*(r-g)+cb*(b-g)) + g + yoffset), "
              "cb = sat(floor(cc*(b-yr)) + coffset), cr = sat(floor(cd*(r-yr)) + coffset), yr being y before offset and saturation "
              "(XAPP930, coefficients quantised to coef_w bits): no intermediate overflow, no mixing of neighbouring pixels.",
    over=["inputs", "schedules", "configurations"],
    quant="all 2^24 RGB triples, all stall schedules, several coefficient and sample widths",
    why="The bench converts one 64x64 image with an eye-checked result and never asserts on it; saturation corners and pixel "
        "mixing need specific neighbouring values.",
    files=["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/common.py"],
    mech=[("RGB2YCbCrDatapath", "litevideo/csc/rgb2ycbcr.py:RGB2YCbCrDatapath"), ("saturate", "litevideo/csc/common.py:saturate")],
    observe=["sink and source streams"],
    technique="value numbering: retimed feed-forward datapath in canonical (BDD) normal form against the wide-arithmetic equation, plus stall-hold dataflow",
    note="Bit-exact for every pixel in the analysed widths. Widths other than the listed ones are not covered.",
)


def sat(m, e, w, nb):
    t, o = Signal((nb, True)), Signal(w)
    m.comb += [t.eq(e), If(t < 0, o.eq(0)).Elif(t > 2**w - 1, o.eq(2**w - 1)).Else(o.eq(t))]
    return o


class Spec(Module):
    def __init__(self, sink, lat, rw, yw, cw):
        r, g, b = [d.o for d in delayed(self, sink, "rgb", lat)]
        q = lambda v: int(v*2**cw)
        nb = rw + cw + 6
        rg, bg, yr, br, rr = [Signal((nb, True)) for _ in range(5)]
        s, p1, p2 = [Signal((2*nb, True)) for _ in range(3)]
        self.comb += [rg.eq(r - g), bg.eq(b - g), s.eq(rg*q(0.1819) + bg*q(0.0618)), yr.eq((s >> cw) + g),
                      br.eq(b - yr), rr.eq(r - yr), p1.eq(br*q(0.5512)), p2.eq(rr*q(0.6495))]
        self.y = sat(self, yr + 2**(yw - 4), yw, nb)
        self.cb = sat(self, (p1 >> cw) + 2**(yw - 1), yw, nb)
        self.cr = sat(self, (p2 >> cw) + 2**(yw - 1), yw, nb)


def run(c):
    from litevideo.csc.rgb2ycbcr import RGB2YCbCr
    cfgs = [(8, 8, 8), (6, 6, 8)]
    cfgs += [(8, 8, 6), (5, 5, 10), (8, 8, 10), (4, 4, 12)]
    if c.tier == "thorough":
        cfgs += [(w, w, k) for w in range(4, 10) for k in range(4, 15) if w + k <= 18 and (w, w, k) not in cfgs]
    c.rule("For every pixel the retimed output word equals the conversion equation evaluated without width limits.")
    for rw, yw, cw in cfgs:
        label = "RGB2YCbCr(%d,%d,%d)" % (rw, yw, cw)
        m = c.elab(label, lambda: RGB2YCbCr(rw, yw, cw))
        if m is None:
            continue
        lat = m.latency
        ce = elastic(c, label, m, lat)
        if ce is None:
            continue
        s = Spec(m.sink, lat, rw, yw, cw)
        for n in ("y", "cb", "cr"):
            c.equiv(label, m, s, [(n, getattr(m.source, n) == getattr(s, n))], fixed=at(ce, 1), free=[m.sink, m.source.ready], unroll=True)


MIN_OBLIGATIONS = 60
