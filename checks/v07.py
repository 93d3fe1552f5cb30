"""V07: test patterns."""
from lvsa import hooks  # noqa: F401
from migen import *

META = dict(
    title="Test patterns stream the exact picture under any stall schedule",
    statement="For a configured line length hres each pattern is the pixel sequence: colour bars - eight bars white, yellow, cyan, "
              "green, magenta, red, blue, black of hres/8 (rounded down) pixels each, repeated; vertical lines - alternating black and white pixels; dots - alternating "
              "pixels with the phase swapped at each line end. The n-th transferred pixel is the n-th of the sequence whatever the consumer's "
              "ready schedule, and the offered pixel does not change until taken.",
    over=["inputs", "schedules"],
    quant="all line lengths, all ready schedules, unbounded length",
    why="No bench exists; losing a pixel needs a stall at a pixel change.",
    files=["litevideo/output/pattern.py"],
    mech=[("ColorBarsPattern", "litevideo/output/pattern.py:ColorBarsPattern"), ("VerticalLinesPattern", "litevideo/output/pattern.py:VerticalLinesPattern"),
          ("DotsPattern", "litevideo/output/pattern.py:DotsPattern")],
    observe=["source stream of each pattern"],
    technique="value numbering (AWZ) against the pixel sequence specification",
    note="The configuration is valid and constant once given. Dots form a checkerboard for even line lengths only.",
)

BARS = [0xffffff, 0xffff00, 0x00ffff, 0x00ff00, 0xff00ff, 0xff0000, 0x0000ff, 0x000000]


class Seq(Module):
    """offers pixel number 0, 1, 2... ; `pixel` is the colour (0xRRGGBB) of the current position, `advance` its successor"""
    def __init__(self, m, pixel, advance):
        self.valid, self.rgb = Signal(), Signal(24)
        go = Signal()
        self.comb += go.eq((self.valid == 0) | m.source.ready)
        self.sync += If(go, self.valid.eq(1), self.rgb.eq(pixel), *advance)


def bars(m):
    n, b = Signal(12), Signal(3)
    px = Signal(24)
    s = Seq(m, px, [If(n + 1 == m.sink.hres[3:12], n.eq(0), b.eq(b + 1)).Else(n.eq(n + 1))])
    s.comb += Case(b, {i: px.eq(v) for i, v in enumerate(BARS)})
    return s


def lines(m):
    p = Signal()
    return Seq(m, Replicate(p, 24), [p.eq(p == 0)])


def dots(m):
    p, n = Signal(), Signal(12)
    end = n + 1 == m.sink.hres
    return Seq(m, Replicate(p, 24), [If(end, n.eq(0)).Else(n.eq(n + 1), p.eq(p == 0))])


def run(c):
    from litevideo.output import pattern as P
    c.rule("With the configuration valid, the source stream equals the pixel sequence advanced exactly by transfers.")
    for cls, spec, hres in (("ColorBarsPattern", bars, True), ("VerticalLinesPattern", lines, False), ("DotsPattern", dots, True)):
        m = c.elab(cls, lambda: getattr(P, cls)())
        if m is None:
            continue
        s = spec(m)
        ok = m.sink.hres[3:12] != 0 if spec is bars else m.sink.hres != 0
        c.equiv(cls, m, s, [("valid", m.source.valid == s.valid), ("pixel", ~s.valid | (Cat(m.source.b, m.source.g, m.source.r) == s.rgb))],
                assume=[ok] if hres else [], fixed={m.sink.valid: 1}, free=[m.sink.hres, m.source.ready])


MIN_OBLIGATIONS = 6
