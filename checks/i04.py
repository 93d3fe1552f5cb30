"""I04: HDMI period detection and TERC4."""
from functools import reduce
from operator import or_, and_
from lvsa import hooks  # noqa: F401
from migen import *
from lvsa.ctx import Broken
from .common import CTL, Delay
from .pipe import imp

META = dict(
    title="HDMI periods are recognised exactly and TERC4 decodes per the standard",
    statement="In HDMI mode a pixel is marked active video exactly from the first character after a video guard band (on all three channels) up "
              "to the next control character, never during a data island, which is entered by its preamble and guard band and left by its "
              "trailing guard band, a control character or a video guard band. In DVI mode it is active exactly when channel 0 carries a data "
              "character. Both marks have the same latency. Each TERC4 character yields the four-bit value HDMI assigns to it.",
    over=["inputs", "histories"],
    quant="all sequences of characters on three channels, both modes",
    why="No bench; the guard band and TERC4 alphabets overlap, so recognition depends on the whole history.",
    files=["litevideo/input/decoding.py"],
    mech=[("DecodeTERC4 FSM", "litevideo/input/decoding.py:DecodeTERC4"), ("DecodeTERC4Channel", "litevideo/input/decoding.py:DecodeTERC4Channel"),
          ("terc4_tokens", "litevideo/input/decoding.py:terc4_tokens")],
    observe=["DecodeTERC4 de_o, encoding_terc4, encrypting_*, decoded nibbles"],
    technique="value numbering (AWZ) against an HDMI 1.4 period specification",
    note="Preambles and guard bands as in HDMI 1.4 section 5.2; alignment with the pixel data is decided in I14.",
)

TERC4 = [0b1010011100, 0b1001100011, 0b1011100100, 0b1011100010, 0b0101110001, 0b0100011110, 0b0110001110, 0b0100111100,
         0b1011001100, 0b0100111001, 0b0110011100, 0b1011000110, 0b1010001110, 0b1001110001, 0b0101100011, 0b1011000011]
DATA_GB = 0b0100110011
VIDEO_GB = [0b1011001100, 0b0100110011, 0b1011001100]

IDLE, DPRE, DLEAD, ISLAND, DTRAIL, VPRE, VLEAD, VIDEO = range(8)


class Spec(Module):
    def __init__(self, valid, raws, de, dvi):
        ctl, pair, vgb, dgb = [], [], [], []
        self.nib = []
        for k, raw in enumerate(raws):
            is_ctl, c, v, g, nib = Signal(), Signal(2), Signal(), Signal(), Signal(4)
            isd, isv = Signal(), Signal()
            self.comb += [isd.eq(raw == DATA_GB), isv.eq(raw == VIDEO_GB[k])]
            self.sync.pix += [
                is_ctl.eq(valid & reduce(or_, [raw == t for t in CTL])),
                # on channel 1 both guard bands are the same character
                v.eq(valid & isv),
                g.eq(valid & isd),
                If(valid == 0, c.eq(0)).Elif(isd | isv, c.eq(0)),
                If(valid, [If(raw == t, c.eq(i)) for i, t in enumerate(CTL)]),
                [If(raw == t, nib.eq(i)) for i, t in enumerate(TERC4)],
            ]
            ctl.append(is_ctl), pair.append(c), vgb.append(v), dgb.append(g), self.nib.append(nib)
        guard, island, any_ctl, code = Signal(), Signal(), Signal(), Signal(4)
        self.comb += [guard.eq(reduce(and_, vgb)), island.eq(dgb[1] & dgb[2]), any_ctl.eq(reduce(or_, ctl)),
                      code.eq(Cat(pair[1], pair[2]))]
        st, nx = Signal(max=8), Signal(max=8)
        self.sync.pix += st.eq(nx)
        self.comb += Case(st, {
            IDLE: If(guard, nx.eq(VLEAD)).Elif(code == 5, nx.eq(DPRE)).Elif(code == 1, nx.eq(VPRE)).Else(nx.eq(IDLE)),
            DPRE: If(guard, nx.eq(VLEAD)).Elif(island, nx.eq(DLEAD)).Elif(code == 5, nx.eq(DPRE)).Else(nx.eq(IDLE)),
            DLEAD: If(island, nx.eq(DLEAD)).Else(nx.eq(ISLAND)),
            ISLAND: If(any_ctl, nx.eq(IDLE)).Elif(guard, nx.eq(VLEAD)).Elif(island, nx.eq(DTRAIL)).Else(nx.eq(ISLAND)),
            DTRAIL: If(island, nx.eq(DTRAIL)).Else(nx.eq(IDLE)),
            VPRE: If(code == 1, nx.eq(VPRE)).Elif(guard, nx.eq(VLEAD)).Else(nx.eq(IDLE)),
            VLEAD: If(guard, nx.eq(VLEAD)).Else(nx.eq(VIDEO)),
            VIDEO: If(any_ctl, nx.eq(IDLE)).Else(nx.eq(VIDEO)),
        })
        self.terc4, self.data, self.video, self.de = Signal(), Signal(), Signal(), Signal()
        self.submodules.dd = Delay(de, 2, "pix")
        self.submodules.sel = Delay(dvi, 2, "pix")
        self.comb += [
            self.terc4.eq((st == DLEAD) | (st == ISLAND) | (st == DTRAIL)),
            self.data.eq(st == ISLAND), self.video.eq(st == VIDEO),
            self.de.eq(Mux(self.sel.o, self.dd.o, st == VIDEO)),
        ]


def channels(m):
    """the decoded values of each channel's decoder, whatever the attributes are called"""
    mods = [getattr(m, "data%d_dect4" % i, None) for i in range(3)]
    if None in mods:
        mods = [x for _, x in m._submodules if type(x).__name__ == "DecodeTERC4Channel"]
    out = []
    for x in mods:
        r = getattr(x, "decval", None) or next((v for v in vars(x).values() if isinstance(v, Record) and hasattr(v, "c_valid")), None)
        if r is None:
            raise Broken("no decoded values in %s" % type(x).__name__)
        out.append(r)
    if len(out) != 3:
        raise Broken("DecodeTERC4 has %d channel decoders" % len(out))
    return out


def run(c):
    from litevideo.input.decoding import DecodeTERC4
    c.rule("Period state, data enable and decoded nibbles equal the HDMI 1.4 period specification.")
    m = c.elab("DecodeTERC4", lambda: ClockDomainsRenamer("pix")(DecodeTERC4()))
    if m is None:
        return
    ins = [getattr(m, "data_in%d" % i) for i in range(3)]
    s = Spec(m.valid_i, [r.raw for r in ins], ins[0].de, m.dvimode.storage)
    dec = channels(m)
    c.equiv("DecodeTERC4", m, s, [
        ("active video", m.de_o == s.de), ("HDMI active video", m.de_hdmi == s.video), ("video encryption window", m.encrypting_video == s.video),
        ("data island", m.encoding_terc4 == s.terc4), ("data island payload", m.encrypting_data == s.data)] + [
        ("TERC4 value, channel %d" % i, dec[i].d == s.nib[i]) for i in range(3)],
        free=[m.valid_i, m.dvimode.storage] + [x for r in ins for x in r.flatten()])


MIN_OBLIGATIONS = 8
