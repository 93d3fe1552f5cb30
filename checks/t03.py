"""T03: terminal memory access and contents."""
import os
from lvsa import hooks  # noqa: F401
from migen import *
from .term import build, memory, scratch

META = dict(
    title="Terminal memory: one exact byte access per request; exact power-up image",
    statement="Every bus access is acknowledged exactly once, one clock after the request; a write stores its byte at the requested address exactly once, "
              "a read returns the byte at the requested address, nothing else is ever written. At power up the memory holds the 4800-byte screen "
              "file followed by the 4096-byte font (zeros for a file name ''); a file of any other length is rejected.",
    over=["inputs", "schedules", "configurations"],
    quant="all bus access sequences, all addresses and data, all initialisation files",
    why="No test elaborates the terminal; back-to-back and read-after-write accesses, and a shifted image, need particular histories.",
    files=["litevideo/terminal/core.py", "litevideo/terminal/screen-init.bin", "litevideo/terminal/cp437.bin"],
    mech=[("Terminal bus interface", "litevideo/terminal/core.py:Terminal.__init__"),
          ("read_ram_init_file", "litevideo/terminal/core.py:read_ram_init_file")],
    observe=["bus, memory write port, memory initialiser"],
    technique="value numbering (AWZ) against a bus specification; structural comparison of the elaborated memory initialiser with the files",
    note="The master holds address, data and write flag until acknowledged (Wishbone). Memory itself is trusted. The files found in the package directory are "
         "used unless the working directory has one of that name.",
)


def run(c):
    from litevideo.terminal import core
    c.rule("The write port is driven with exactly the accepted writes; data read and acknowledge equal the bus specification.")
    c.rule("The memory initialiser is the concatenation of the two files; wrong lengths do not elaborate.")
    m = build(c, "Terminal()")
    if m is None:
        return
    mem = memory(c, "Terminal()", m)
    if mem is None:
        return
    ram, w, _ = mem
    b = m.bus
    s = Module()
    req, ack, we, adr, dat = Signal(), Signal(), Signal(), Signal(len(w.adr)), Signal(8)
    dat1, adr1 = Signal(8), Signal(len(adr))              # kept from the accepted write
    s.comb += req.eq(b.cyc & b.stb & (ack == 0))
    s.sync += [ack.eq(req), we.eq(req & b.we), adr.eq(b.adr), dat.eq(b.dat_w)]
    s.sync += If(req & b.we, dat1.eq(b.dat_w), adr1.eq(b.adr))
    badr = b.adr[:len(adr)]
    held = ((ack == 0) | ((badr == adr) & (b.dat_w == dat))) & ((we == 0) | ((badr == adr) & (badr == adr1) & (b.dat_w == dat) & (b.dat_w == dat1)))
    # the port writes in the cycle it is enabled; the address of a read is taken on the request clock
    c.equiv("Terminal()", m, s, [
        ("acknowledge", b.ack == ack),
        ("write exactly accepted writes", w.we == we),
        ("write address", (we == 0) | (w.adr == badr)),
        ("write data", (we == 0) | (w.dat_w == b.dat_w)),
        ("read address", (req == 0) | (w.adr == badr)),
        ("read data", (ack == 0) | (b.dat_r == w.dat_r)),
    ], assume=[held], cut=[w.dat_r, mem[2].dat_r], free=[b.adr, b.dat_w, b.cyc, b.stb, b.we, b.sel, b.cti, b.bte])
    c.req(w.we_granularity in (0, 8) and len(w.adr) >= 14, "netlist", "Memory", "write port is not a byte port over all locations")

    here = os.path.dirname(core.__file__)
    rd = lambda n: list(open(os.path.join(here, n), "rb").read())
    screen, font = rd("screen-init.bin"), rd("cp437.bin")
    A, B = [i * 7 % 251 for i in range(4800)], [i * 13 % 241 for i in range(4096)]
    with scratch() as t:
        def file(n, x):
            n = os.path.join(t, n)
            with open(n, "wb") as fh:
                fh.write(bytes(x))
            return n
        fa, fb = file("a.bin", A), file("b.bin", B)
        short, long_ = file("s.bin", B[:-1]), file("l.bin", A + [0])
        shortscreen, longfont = file("s2.bin", A[:-1]), file("l2.bin", B + [0])
        for label, kw, want in (
                ("defaults", {}, screen + font),
                ("files", dict(font_filename=fb, screen_init_filename=fa), A + B),
                ("font only", dict(font_filename=fb, screen_init_filename=""), [0] * 4800 + B),
                ("screen only", dict(font_filename="", screen_init_filename=fa), A + [0] * 4096),
                ("empty", dict(font_filename="", screen_init_filename=""), [0] * 8896)):
            t = build(c, "Terminal(%s)" % label, **kw)
            mm = t is not None and memory(c, label, t)
            if mm:
                init = list(mm[0].init or [])
                init += [0] * (8896 - len(init))
                bad = [i for i in range(max(len(init), 8896)) if i >= len(want) and init[i] or i < len(want) and init[i] != want[i]]
                c.req(not bad, "init", "Memory.init", "Terminal(%s): initial memory differs from the files, first at %s" % (label, bad[:1]),
                      sample="Terminal(%s): 8896 initial bytes equal the files" % label)
        for label, kw in (("short font", dict(font_filename=short)), ("long font", dict(font_filename=longfont)),
                          ("short screen", dict(screen_init_filename=shortscreen)), ("long screen", dict(screen_init_filename=long_))):
            try:
                core.Terminal(**kw)
                r = False
            except Exception:
                r = True
            c.req(r, "init", "read_ram_init_file", "Terminal(%s): a file of the wrong length is accepted" % label)
    image = rd("terminal.bin") if os.path.exists(os.path.join(here, "terminal.bin")) else None
    if image is not None:
        c.req(image == screen + font, "init", "terminal.bin", "terminal.bin is not the screen file followed by the font")


MIN_OBLIGATIONS = 15
