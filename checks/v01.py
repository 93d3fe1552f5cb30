"""V01: video timing raster."""
from lvsa import hooks  # noqa: F401
from migen import *

META = dict(
    title="Generated video timing is the programmed raster",
    statement="For every programmed set of frame parameters and every pattern of downstream stalls, the timing "
              "generator steps through exactly hscan+1 positions per line and vscan+1 lines per frame, advancing only "
              "when its output is accepted; data-enable covers exactly the first hres positions of the first vres lines, "
              "hsync/vsync switch at their programmed start and end positions, and one frame-end marker is produced, "
              "at the last position, which is the only moment at which new frame parameters are taken. "
              "While no parameters are present it restarts from the top-left position.",
    over=["inputs", "configurations", "schedules"],
    quant="all 12-bit parameter values, all stall schedules, any length of history",
    why="No bench in the stable set exercises the timing generator; a bench would sample one resolution with an "
        "always-ready consumer.",
    files=["litevideo/output/core.py"],
    mech=[("TimingGenerator", "litevideo/output/core.py:TimingGenerator")],
    observe=["timing generator source stream (valid, last, de, hsync, vsync) and sink.ready"],
    technique="value numbering (AWZ partition refinement over elaborated FHDL) against a raster specification",
    note="Decides the whole statement for all inputs by an inductive congruence between the module's registers and a "
         "specification raster; trusts Migen's front end and the normal-form engine.",
)



class RasterSpec(Module):
    """Raster definition, at the stream interface: `tg` is only read on its inputs."""
    def __init__(self, p, valid, ready):
        x, y = Signal(12), Signal(12)
        hact, vact = Signal(), Signal()
        self.hsync, self.vsync, self.last = Signal(), Signal(), Signal()
        self.de = Signal()
        eol, eof = Signal(), Signal()
        step = Signal()
        self.comb += [
            step.eq(valid & ready),
            eol.eq(x == p.hscan),
            eof.eq(eol & (y == p.vscan)),
            self.de.eq(valid & hact & vact),
        ]

        def flag(sig, pos, on, off):
            # set at `on`, cleared at `off`; clearing wins
            return sig.eq(Mux(pos == off, 0, Mux(pos == on, 1, sig)))
        self.sync += [
            If(step,
                x.eq(Mux(eol, 0, x + 1)),
                If(eol, y.eq(Mux(eof, 0, y + 1))),
                flag(hact, x, 0, p.hres),
                flag(vact, y, 0, p.vres),
                flag(self.hsync, x, p.hsync_start, p.hsync_end),
                flag(self.vsync, y, p.vsync_start, p.vsync_end),
                self.last.eq(eof),
            ),
            If(~valid, x.eq(0), y.eq(0), hact.eq(0), vact.eq(0)),
        ]


def run(c):
    from litevideo.output.core import TimingGenerator
    c.rule("Every output of the timing generator is value-numbered against the raster definition "
           "(position counters, set/clear windows, frame-end marker) for every parameter set and "
           "every stall pattern.")
    m = c.elab("TimingGenerator", TimingGenerator)
    if m is None:
        return
    s = RasterSpec(m.sink, m.sink.valid, m.source.ready)
    o = m.source
    c.equiv("TimingGenerator", m, s, [
        ("de is high exactly inside the active window", o.de == s.de),
        ("hsync window", o.hsync == s.hsync),
        ("vsync window", o.vsync == s.vsync),
        ("last marks the final position of the frame", o.last == s.last),
        ("valid follows the presence of parameters", o.valid == m.sink.valid),
        ("parameters are consumed only at frame end", m.sink.ready == (o.ready & s.last)),
    ], free=[m.sink, m.source.ready])
