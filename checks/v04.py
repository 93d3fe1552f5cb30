"""V04: framebuffer fetch."""
from lvsa import hooks  # noqa: F401
from migen import *
from . import vcore
from .vcore import imp, build, configs, PARAMS

META = dict(
    title="Each frame reads exactly the programmed framebuffer, in order",
    statement="For every frame the output core requests memory words base, base+1, ... base+length-1 (byte parameters scaled "
              "to memory words), each exactly once, in that order, and never writes; a word request is held until accepted. "
              "The parameters of a raster frame come from one atomic register snapshot, replaced only at a frame boundary; all words of a frame "
              "follow the one base and length programmed when its fetch starts, and no new frame is started while output is disabled.",
    over=["inputs", "schedules", "configurations"],
    quant="all register contents, memory stall and response schedules, port widths, clock domains, FIFO depths, with and without genlock",
    why="There is no stable bench for the output core; ordering under arbitrary memory stalls is a property of all schedules.",
    files=["litevideo/output/core.py", "litevideo/output/common.py"],
    mech=[("Initiator parameter FIFO", "litevideo/output/core.py:Initiator"),
          ("DMAReader FSM", "litevideo/output/core.py:DMAReader")],
    observe=["memory port cmd/flush/rdata", "register storage"],
    technique="value numbering (AWZ) of the memory-port command stream against a fetch specification",
    note="Decides the statement given the contracts of LiteX AsyncFIFO and LiteDRAM's DMA reader, which are elaborated on both "
         "sides. With genlock the first word index of a frame is the programmed delay and a frame starts on the genlock vsync edge.",
)


def run(c):
    c.rule("Memory command stream (valid, address, write flag, flush) and read acceptance of the output core are "
           "value-numbered against the fetch specification; parameter registers must be atomic.")
    for cfg in configs(c.tier):
        r = build(c, cfg)
        if r is None:
            continue
        label, m, s, port, fr = r
        sp = s.fetch.port
        obls = [
            ("request valid", port.cmd.valid == sp.cmd.valid),
            ("request address", imp(sp.cmd.valid, port.cmd.addr == sp.cmd.addr)),
            ("never writes", imp(port.cmd.valid, port.cmd.we == 0)),
            ("flush only while idle and disabled", port.flush == sp.flush),
            ("response accepted", port.rdata.ready == sp.rdata.ready),
        ]
        c.equiv(label, m, s, obls, free=fr)
        for n, w in PARAMS:
            reg = getattr(m.initiator, n)
            c.req(reg.atomic_write or reg.size <= 8, "atomic-parameter", "Initiator." + n,
                  "%s: register %s (%d bits) is not written atomically, so a frame could mix old and new bytes" % (
                      label, n, reg.size))
            c.req(reg.size == w, "parameter-width", "Initiator." + n,
                  "%s: register %s is %d bits, parameter is %d" % (label, n, reg.size, w))


MIN_OBLIGATIONS = 100
