"""Terminal: shared specification parts (written from the documented VGA timing and memory map)."""
import os
import tempfile
from contextlib import contextmanager
from lvsa import hooks  # noqa: F401
from lvsa.structure import fragment
from migen import *
from migen.fhdl.specials import Memory

PADS = [("red", 8), ("green", 8), ("blue", 8), ("hsync", 1), ("vsync", 1)]
PALETTE = [0x000000, 0x0000aa, 0x00aa00, 0x00aaaa, 0xaa0000, 0xaa00aa, 0xaa5500, 0xaaaaaa,
           0x555555, 0x5555ff, 0x55ff55, 0x55ffff, 0xff5555, 0xff55ff, 0xffff55, 0xffffff]


@contextmanager
def scratch():
    """initialiser files are looked up in the working directory first"""
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as t:
        os.chdir(t)
        try:
            yield t
        finally:
            os.chdir(old)


def build(c, label, pads=None, **kw):
    from litevideo.terminal.core import Terminal
    with scratch():
        return c.elab(label, lambda: Terminal(pads, **kw))


def variants(c):
    """(label, module, outputs)"""
    for label, pads in (("Terminal()", None), ("Terminal(pads)", Record(PADS, name="pads"))):
        m = build(c, label, pads)
        if m is not None:
            yield label, m, pads if pads is not None else m


def memory(c, label, m):
    """(memory, write port, display port)"""
    mems = [s for s in fragment(m).specials if isinstance(s, Memory)]
    if not c.req(len(mems) == 1 and mems[0].width == 8 and mems[0].depth >= 8896, "netlist", "Memory",
                 label + ": there is not exactly one byte memory of 8896 locations"):
        return None
    w = [p for p in mems[0].ports if p.we is not None]
    r = [p for p in mems[0].ports if p.we is None]
    if not c.req(len(w) == 1 and len(r) == 1 and w[0].clock.cd == "sys" and r[0].clock.cd == "vga" and not r[0].async_read
                 and not w[0].async_read and w[0].re is None and r[0].re is None, "netlist", "Memory",
                 label + ": memory ports are not one write port (sys) and one read port (vga)"):
        return None
    return mems[0], w[0], r[0]


class Frame(Module):
    """800 clocks per line, 521 lines per picture.  `late`: the picture's end is recognised one clock into the next line;
    `hold`: the syncs are set in pulse and back porch and kept elsewhere (False: set at every clock, "edge": set only where they change)"""
    def __init__(self, late, hold=False):
        self.x, self.y = x, y = Signal(10), Signal(10)
        self.hsync, self.vsync, self.active, self.eol = [Signal() for _ in range(4)]
        self.sync.vga += [
            If(self.eol, x.eq(0), y.eq(y + 1)).Else(x.eq(x + 1)),
            If(y == 521, y.eq(0)) if late else If(self.eol & (y == 520), y.eq(0)),
            [If(x == 0, self.hsync.eq(0)), If(x == 96, self.hsync.eq(1))] if hold == "edge" else
            If(x < 96, self.hsync.eq(0)).Elif((x < 144) | (not hold), self.hsync.eq(1)),
            [If(y == 0, self.vsync.eq(0)), If(y == 2, self.vsync.eq(1))] if hold == "edge" else
            If(y < 2, self.vsync.eq(0)).Elif((y < 31) | (not hold), self.vsync.eq(1)),
        ]
        self.comb += [self.eol.eq(x == 799), self.active.eq((x >= 144) & (x < 784) & (y >= 31) & (y < 511))]


QUICK = [dict(enum="case", use_index=False), dict(enum="none", use_index=False)]


def either(c, label, m, obls, forms, mk=Frame, **kw):
    """every obligation holds in one of the equivalent forms of the specification"""
    for f in forms:
        s = mk(*f)
        if c.equiv(label, m, s, obls(s), quiet=True, strats=QUICK, **kw):
            return
    s = mk(*forms[0])
    c.equiv(label, m, s, obls(s), strats=QUICK, **kw)
