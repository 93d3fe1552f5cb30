"""T02: terminal text rendering."""
from itertools import product
from lvsa import hooks  # noqa: F401
from migen import *
from .term import variants, either, memory, Frame, PALETTE

META = dict(
    title="Terminal renders every character cell with its own glyph and colours",
    statement="The 640x480 picture (clocks 144-783 of a line, lines 31-510 of a picture) shows the 80x30 cells of memory: "
              "the pixel at (x,y) of cell (column, row) is the foreground colour (low nibble of the cell's colour byte) when bit 7-x%8 of the "
              "font byte 4800+16*code+y%16 is set, else the background colour (high nibble), in the VGA 16-colour palette, code and colour being "
              "the bytes 2*(80*row+column) and the next; everything else is black. It holds for every picture after reset and any contents.",
    over=["inputs", "schedules"],
    quant="all memory contents (also changing ones), every pixel of every picture",
    why="No test elaborates the terminal; fetch slots, row wraps and the colour pipeline go wrong only at particular cells and colours.",
    files=["litevideo/terminal/core.py"],
    mech=[("Terminal fetch and pixel pipeline", "litevideo/terminal/core.py:Terminal.__init__")],
    observe=["red, green, blue, display memory port address"],
    technique="value numbering (AWZ) against a fetch/render specification, memory read data as a free input; fetch addresses proved at the slots that are used",
    note="Memory is read per 8-pixel cell row while the previous cell is shown: code, colour, font byte in this order.",
)


class Render(Frame):
    def __init__(self, late, keep, always, latepal, dat):
        Frame.__init__(self, late)
        x, y, sy = self.x, self.y, self.sync.vga
        slot = x[0:3]                                   # 144 and 136 are multiples of 8
        start, fl, self.ta, self.fa = Signal(14), Signal(4), Signal(14), Signal(14)
        ta = self.ta
        sy += [
            If(self.eol, If(fl == 15, fl.eq(0), start.eq(start + 160)).Else(fl.eq(fl + 1))),
            If((y == 30) & (keep | self.eol), fl.eq(0), start.eq(0)),
            If(x == 135, ta.eq(start)).Elif((slot == 1) | (slot == 2), ta.eq(ta + 1)),
        ]
        self.fetch = Signal()                           # the slots of this clock are used
        self.comb += self.fetch.eq((y >= 31) & (y < 511) & (x >= 136) & (x < 776))
        self.adr = Signal(14)
        sy += Case(slot, {1: self.adr.eq(ta), 2: self.adr.eq(ta), 3: self.adr.eq(4800 + 16*dat + fl)})
        # colour and font byte of the next cell, colours through one palette look-up
        col, font, idx, fg, rgb = Signal(8), Signal(8), Signal(4), Signal(24), Signal(24)
        self.comb += Case(idx, {i: rgb.eq(v) for i, v in enumerate(PALETTE)})
        w = 4 if latepal else 24                        # colours looked up when displayed, or when fetched
        f, b, bits = Signal(w), Signal(w), Signal(8)    # the cell on display
        sy += [
            If(self.active | always, bits.eq(bits << 1)),
            Case(slot, {4: col.eq(dat), 5: font.eq(dat)}),
            If(slot == 7, bits.eq(font)),
        ]
        show = Mux(bits[7], f, b)
        if latepal:
            sy += If(slot == 7, f.eq(col[0:4]), b.eq(col[4:8]))
            self.comb += idx.eq(show)
            show = rgb
        else:
            sy += Case(slot, {5: idx.eq(col[0:4]), 6: [fg.eq(rgb), idx.eq(col[4:8])], 7: [f.eq(fg), b.eq(rgb)]})
        self.parts = dict(start=start, fl=fl, ta=ta, x=x, y=y, bits=bits, font=font, col=col, idx=idx, f=f, b=b)
        self.rgb = Signal(24)
        sy += self.rgb.eq(Mux(self.active, show, 0))


def run(c):
    c.rule("Fetch addresses are the cell's code, colour and font locations at the slots used, and the output is the render specification's, in "
           "every state of the product.")
    for label, m, o in variants(c):
        mem = memory(c, label, m)
        if mem is None:
            continue
        rd = mem[2]

        def obls(s):
            at = lambda n: s.fetch & (s.x[0:3] == n)
            return ([("address slot %d" % n, (at(n) == 0) | (rd.adr == s.adr)) for n in (2, 3, 4)] +
                    [("red", o.red == s.rgb[16:24]), ("green", o.green == s.rgb[8:16]), ("blue", o.blue == s.rgb[0:8])])
        forms = [(late, keep, al, pal) for pal, al, keep, late in product((False, True), (0, 1), (1, 0), (True, False))]
        either(c, label, m, obls, forms, mk=lambda *f: Render(*f, dat=rd.dat_r), cut=[rd.dat_r], free=[m.bus])


MIN_OBLIGATIONS = 14
