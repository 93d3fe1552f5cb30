"""V05: combination of timing and data."""
from lvsa import hooks  # noqa: F401
from migen import *
from .vcore import imp, build, configs

META = dict(
    title="Video output pairs every active position with the next fetched word",
    statement="The core's output stream presents the raster's syncs and data-enable, stalling only in active positions for which no fetched "
              "word is available; each accepted active position consumes exactly the next fetched word and blanking "
              "positions consume none (raw mode consumes one per position). While disabled, timing restarts and fetched data is drained. The underflow "
              "counter counts exactly the clocks without valid output since it was enabled and is reported on request.",
    over=["inputs", "schedules", "configurations"],
    quant="all parameters, memory latencies, downstream stalls and enable/disable histories, all modes, with and without genlock",
    why="No stable bench covers the core; losing or duplicating one word needs a particular stall pattern.",
    files=["litevideo/output/core.py"],
    mech=[("VideoOutCore control path", "litevideo/output/core.py:VideoOutCore")],
    observe=["output stream valid/ready/de/hsync/vsync/data", "underflow counter register"],
    technique="value numbering (AWZ) of the output stream and statistics against a composition specification",
    note="Decides the statement under the library FIFO/DMA contracts; each configuration is a separate inductive congruence.",
)


def run(c):
    c.rule("Output stream and underflow statistics are value-numbered against raster + fetch + pairing specification.")
    for cfg in configs(c.tier):
        r = build(c, cfg)
        if r is None:
            continue
        label, m, s, port, fr = r
        o, e = m.source, s.source
        c.equiv(label, m, s, [
            ("valid", o.valid == e.valid),
            ("data-enable", o.de == e.de), ("hsync", o.hsync == e.hsync), ("vsync", o.vsync == e.vsync),
            ("data", imp(e.valid & e.de, o.data == e.data)) if cfg[0] != "raw" else
            ("data", imp(s.fetch.source.valid, o.data == e.data)),
            ("underflow report", m.underflow_counter.status == s.snapshot),
        ], free=fr)


MIN_OBLIGATIONS = 36
