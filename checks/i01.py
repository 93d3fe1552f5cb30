"""I01: TMDS character decoding."""
from lvsa import hooks, ir  # noqa: F401
from migen import *
from .common import CTL, Delay
from .pipe import imp

META = dict(
    title="TMDS decoding inverts the DVI encoding",
    statement="For every 10-bit character, one pixel clock later: a control character gives de=0 and its own two control bits, any other "
              "character de=1 and the data byte of the DVI 1.0 decoding (inversion flag, XOR or XNOR chain); the control bits otherwise keep "
              "their last value, the raw character and validity travel along. Hence whatever this repository's encoder emits, at any running "
              "disparity, decodes to the original byte or control pair.",
    over=["inputs", "histories"],
    quant="all 1024 characters and all sequences of them; all bytes, control pairs and disparity histories of the encoder",
    why="There is no bench for the input path; the round trip quantifies over every disparity history.",
    files=["litevideo/input/decoding.py", "litevideo/input/common.py", "litevideo/output/hdmi/encoder.py"],
    mech=[("Decoding", "litevideo/input/decoding.py:Decoding"), ("control_tokens", "litevideo/input/common.py:control_tokens"),
          ("Encoder", "litevideo/output/hdmi/encoder.py:Encoder")],
    observe=["Decoding.output, valid_o"],
    technique="value numbering (AWZ) against the DVI decoding definition; retimed encoder-decoder composition in canonical normal form",
    note="Complete for the decoder. TERC4 and guard band characters are data characters at this level (see I04).",
)


class Spec(Module):
    def __init__(self, x, valid):
        self.de, self.c, self.d, self.raw, self.valid = Signal(), Signal(2), Signal(8), Signal(10), Signal()
        q = Signal(8)
        self.comb += q.eq(Mux(x[9], x[:8] ^ 0xff, x[:8]))
        d = [q[0]]
        for i in range(1, 8):
            d.append(Mux(x[8], q[i] != q[i - 1], q[i] == q[i - 1]))
        self.sync.pix += [
            self.raw.eq(x), self.valid.eq(valid), self.d.eq(Cat(*d)), self.de.eq(1),
            Case(x, {t: [self.de.eq(0), self.c.eq(k)] for k, t in enumerate(CTL)})]


class Link(Module):
    """encoder output feeds the decoder; the sent values, as seen at the encoder output [0] and decoder output [1]"""
    def __init__(self, e, m, lat):
        self.comb += m.input.eq(e.out)
        ds = [Delay(x, lat + 1, "pix") for x in (e.de, e.d, e.c)]
        self.submodules += ds
        self.de, self.d, self.c = [x.taps[-2:] for x in ds]


def loaded(d, x):
    """the value a register (possibly behind an alias) takes at the next clock"""
    while x not in d.sync and x in d.comb and d.define(x).op == "sig":
        x = d.define(x).ref
    return d.define(x) if x in d.sync else d.expr(x)


def run(c):
    from litevideo.input.decoding import Decoding
    from litevideo.output.hdmi.encoder import Encoder
    c.rule("Decoder outputs equal the DVI definition; the composition decoder(encoder(x)) in retimed normal form equals x.")
    m = c.elab("Decoding", Decoding)
    if m is not None:
        c.widths("Decoding", ("input", m.input, 10))
        s = Spec(m.input, m.valid_i)
        o = m.output
        c.equiv("Decoding", m, s, [("de", o.de == s.de), ("c", o.c == s.c), ("d", o.d == s.d), ("raw", o.raw == s.raw),
                                   ("valid", m.valid_o == s.valid)], free=[m.input, m.valid_i])
    for lat in (4, 3, 5, 2, 6, None):
        e = c.elab("Encoder", lambda: ClockDomainsRenamer("pix")(Encoder()))
        m = c.elab("Decoding", Decoding)
        if m is None or e is None:
            return
        l = Link(e, m, lat or 4)
        if c.equiv("Encoder+Decoding", [e, m], l, [
                ("round trip de", m.output.de == l.de[1]),
                ("round trip data", imp(l.de[1], m.output.d == l.d[1])),
                ("round trip control", lambda d: ir.op("|", d.expr(l.de[0]), ir.op("==", loaded(d, m.output.c), d.expr(l.c[0]))))],
                free=[e.d, e.c, e.de, m.valid_i], unroll=True, quiet=lat is not None):
            break


MIN_OBLIGATIONS = 8
