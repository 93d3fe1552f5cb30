"""X04: quiet until software enables."""
from lvsa import hooks, ir
from migen import *
from .systems import inputs, outputs, cores, ports

META = dict(
    title="Nothing starts on its own: untouched registers mean an idle system",
    statement="As long as software has not written a register, an input never writes memory, changes a DMA slot, raises an interrupt or announces "
              "itself to the source (hot-plug), and an output never reads memory or enables video: whatever arrives on the pads, the memory port and "
              "the primitives. An output's port is never used for writing and an input's never for reading, in any state.",
    over=["inputs", "histories", "configurations"],
    quant="all pad and memory-port histories of any length after reset, with untouched software registers; all devices, modes, widths, slots and FIFO depths",
    why="A control whose reset value or gating is wrong writes to address 0 of main memory before any software runs; benches always program first.",
    files=["litevideo/input/dma.py", "litevideo/input/edid.py", "litevideo/output/core.py", "litevideo/output/__init__.py", "litevideo/input/__init__.py"],
    mech=[("_Slot, DMA", "litevideo/input/dma.py"), ("Initiator, VideoOutCore", "litevideo/output/core.py"), ("EDID", "litevideo/input/edid.py:EDID")],
    observe=["port.cmd, port.wdata, slot interrupts, hpd_en, stream valid/data enable"],
    technique="constant propagation with inductive value numbering over the elaborated system, software registers at reset and all other inputs free",
    note="Reset values are those of the register bank; clock generator reset and delay registers act on clocks only and are not restricted.",
)


def storages(m):
    return [s for r in m.get_csrs() for s in (getattr(r, a, None) for a in ("storage", "re", "r", "we")) if isinstance(s, Signal)]


class Others:
    """software registers hold their reset values; every other undriven signal is free"""
    def __init__(self, held):
        self.held = set(held)

    def __contains__(self, s):
        return s in self.held


def zero(c, label, m, obls):
    c.equiv(label, m, None, [(n, s == 0) for n, s in obls], stuck=Others(storages(m) + m.lv_idle), strats=STRATS)


STRATS = [dict(enum="case", use_index=False, const=True), dict(enum="case", use_index=False), dict(enum="none", use_index=False, const=True)]


def direction(c, label, m, port, unused):
    """the half of the port that belongs to the other direction is never offered anything, whatever software does"""
    c.equiv(label + " port", m, None, [(n, s == 0) for n, s in unused], stuck=Others([port.cmd.valid, port.cmd.we, port.wdata.valid]), strats=STRATS)


def run(c):
    c.rule("With every CSR storage at its reset value and every strobe low, the listed outputs are constant 0 for all other inputs; "
           "the unused half of each memory port is constant 0 unconditionally.")
    full = c.tier != "quick"
    for label, m in inputs(c, full, 8):
        port, obls = m.lv_port, []
        m.lv_idle = [port.cmd.valid, port.wdata.valid] if port is not None else []
        if port is not None:
            obls += [("no memory command", port.cmd.valid), ("no write data", port.wdata.valid), ("no interrupt", m.dma.ev.irq)]
            obls += [("%s is untouched" % r.name, r.we) for r in m.get_csrs() if getattr(r, "we", None) is not None and type(r).__name__ == "CSRStorage"
                     and getattr(r, "write_from_dev", True)]
        if hasattr(m.lv_pads, "hpd_en"):
            obls.append(("no hot plug", m.lv_pads.hpd_en))
        if obls:
            zero(c, label, m, obls)
        if port is not None:
            direction(c, label, m, port, [("only write commands", port.cmd.valid & ~port.cmd.we)])
    for label, m in list(outputs(c, full)) + list(cores(c, full)):
        port = m.lv_port
        src = m.core.source if hasattr(m, "core") else m.source
        gen = "genlock" in label
        m.lv_idle = [port.cmd.valid]
        zero(c, label, m, [("no memory command", port.cmd.valid)] + ([] if gen else [("no video", src.valid), ("no data enable", src.de), ("no hsync", src.hsync), ("no vsync", src.vsync)])
             + ([("driver: no data enable", m.driver.sink.de)] if hasattr(m, "driver") else []))
        direction(c, label, m, port, [("never writes", port.cmd.valid & port.cmd.we), ("no write data", port.wdata.valid)])


MIN_OBLIGATIONS = 300
