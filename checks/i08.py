"""I08: EDID slave."""
from lvsa import hooks  # noqa: F401
from migen import *
from migen.fhdl.specials import Tristate
from migen.genlib.cdc import MultiReg
from lvsa.structure import fragment
from .stubs import hdmi_pads

META = dict(
    title="EDID is an I2C memory at 0x50 and the default image is valid",
    statement="On every I2C bus history the slave answers exactly address 0x50: it acknowledges its address and a written offset, then drives, most "
              "significant bit first, the bytes of the image from that offset on, advancing one byte per master acknowledge and stopping at a "
              "not-acknowledge. A start condition always restarts address reception, nothing is driven outside acknowledge and read data bits, the line is only "
              "ever pulled low, and while hot-plug is disabled the slave stays silent. "
              "The hot-plug output follows its control register, the hot-plug status the notification pin (1 without one). Every block of the default image has the EDID header, "
              "block count and checksum.",
    over=["inputs", "histories", "configurations"],
    quant="all line histories as seen by the sampler, all images of whole 128-byte blocks, all pad options (inverted, split pull-up/down, no hot-plug)",
    why="No bench; a slave that drives at the wrong time blocks the bus only for particular histories.",
    files=["litevideo/input/edid.py"],
    mech=[("EDID", "litevideo/input/edid.py:EDID"), ("_default_edid", "litevideo/input/edid.py:_default_edid")],
    observe=["SDA drive", "hot-plug pads and registers"],
    technique="value numbering (AWZ) against an I2C memory-slave specification; memory as an operator on both sides; constant checks on the image",
    note="Bus timing slower than the 64-cycle sampler is assumed; no stop condition detection is claimed.",
)

IDLE, ADDR, AA0, AA1, AA2, OFFS, OA0, OA1, OA2, READ, MACK = range(11)


class Spec(Module):
    def __init__(self, scl_pad, sda_pad, image, enable):
        n = len(image)
        scl_s, sda_s = Signal(), Signal()
        self.specials += MultiReg(scl_pad, scl_s), MultiReg(sda_pad, sda_s)
        # sampler: one sample of both lines every 64 clocks
        t = Signal(7)
        scl, sda, scl1, sda1 = [Signal() for _ in range(4)]
        self.sync += [t.eq(t[:6] + 1), If(t[6], scl.eq(scl_s), sda.eq(sda_s)), scl1.eq(scl), sda1.eq(sda)]
        rise, start = Signal(), Signal()
        self.comb += [rise.eq((scl == 1) & (scl1 == 0)), start.eq((scl == 1) & (sda1 == 1) & (sda == 0))]
        # nine-clock byte frames
        nbit, byte = Signal(max=9), Signal(8)
        self.sync += [If(rise, nbit.eq(Mux(nbit == 8, 0, nbit + 1)), If(nbit != 8, byte.eq(Cat(sda, byte[:7])))).Elif(start, nbit.eq(0))]
        # image
        mem = Memory(8, n, init=image)
        p = mem.get_port()
        self.specials += mem, p
        off = Signal(max=n)
        rw, bit, hold = Signal(), Signal(), Signal()
        self.comb += p.adr.eq(off)
        st = Signal(max=11)
        low = Signal()
        self.comb += low.eq(scl == 0)
        step = {
            ADDR: If(nbit == 8, If(byte[1:] == 0x50, rw.eq(byte[0]), st.eq(AA0)).Else(st.eq(IDLE))),
            AA0: If(low, st.eq(AA1)), AA1: If(~low, st.eq(AA2)), AA2: If(low, st.eq(Mux(rw, READ, OFFS))),
            OFFS: If(nbit == 8, off.eq(byte), st.eq(OA0)),
            OA0: If(low, st.eq(OA1)), OA1: If(~low, st.eq(OA2)), OA2: If(low, st.eq(ADDR)),
            READ: If(low, If(nbit == 8, hold.eq(0), st.eq(MACK)).Else(hold.eq(1), Case(nbit, {i: bit.eq(p.dat_r[7 - i]) for i in range(8)}))),
            MACK: If(rise, off.eq(off + 1), st.eq(Mux(sda, IDLE, READ))),
        }
        self.sync += [Case(st, step), If(start, st.eq(ADDR)), If(enable == 0, st.eq(IDLE))]
        self.drive = Signal()
        self.sync += self.drive.eq((st == AA1) | (st == AA2) | (st == OA1) | (st == OA2) | (hold & ~bit))


def run(c):
    from litevideo.input.edid import EDID, _default_edid
    c.rule("SDA drive equals the I2C memory-slave specification; pads and hot-plug follow the pad options.")
    img = list(_default_edid)
    c.req(len(img) % 128 == 0 and len(img) >= 128, "edid-size", "_default_edid", "default EDID is not a whole number of 128-byte blocks")
    c.req(all(isinstance(b, int) and 0 <= b <= 255 for b in img), "edid-bytes", "_default_edid", "default EDID contains values outside 0..255")
    c.req(img[:8] == [0, 255, 255, 255, 255, 255, 255, 0], "edid-header", "_default_edid", "default EDID header is wrong: %s" % img[:8])
    c.req(img[126] == len(img) // 128 - 1, "edid-extensions", "_default_edid", "default EDID announces %d extension blocks, has %d" % (
        img[126], len(img) // 128 - 1))
    for k in range(0, len(img), 128):
        c.req(sum(img[k:k + 128]) % 256 == 0, "edid-checksum", "_default_edid[%d]" % (k // 128), "default EDID block %d: checksum is wrong (sum %d mod 256)"
              % (k // 128, sum(img[k:k + 128]) % 256))
        c.req(len(img[k:k + 128]) == 128, "edid-block", "_default_edid[%d]" % (k // 128), "short block")
    small = [(7 * i + 3) & 255 for i in range(128)]
    variants = [
        ("default", None, dict()),
        ("one block", small, dict()),
        ("scl inverted, hpd inverted", small, dict(inverted=("scl", "hpd_notif"))),
        ("no hpd", small, dict(hpd=False)),
        ("hpd output only", small, dict(hpd="en")),
        ("hpd notification only", small, dict(hpd="notif")),
        ("split pull", img, dict(pupd=True)),
        ("split pull inverted", small, dict(pupd=True, inverted=("sda", "scl", "hpd_notif"))),
    ]
    for name, image, kw in variants:
        label = "EDID(%s)" % name
        pads = hdmi_pads(**kw)
        m = c.elab(label, (lambda: EDID(pads)) if image is None else lambda: EDID(pads, image))
        if m is None or c.design(label, m) is None:
            continue
        inv = kw.get("inverted", ())
        has_en, has_notif = hasattr(pads, "hpd_en"), hasattr(pads, "hpd_notif")
        free = [pads.scl] + ([pads.hpd_notif] if has_notif else []) + ([m._hpd_en.storage] if has_en else [])
        if kw.get("pupd"):
            sda, o, oe = pads.sda, Signal(), pads.sda_pd
            free.append(pads.sda)
            extra = [("never pulled up", pads.sda_pu == 0)]
        else:
            ts = [s for s in fragment(m).specials if isinstance(s, Tristate) and s.target is pads.sda]
            if not c.req(len(ts) == 1, "tristate", label, "%s: sda has %d tristate drivers" % (label, len(ts))):
                continue
            sda, o, oe = ts[0].i, ts[0].o, ts[0].oe
            extra = [("only pulls low", lambda d: ir_and(d, oe, o))]
        sp = Spec(~pads.scl if "scl" in inv else pads.scl, ~sda if "sda" in inv else sda, image or img,
                  m._hpd_en.storage if has_en else Constant(1))
        obls = [("sda drive", oe == sp.drive)] + extra
        if has_en:
            obls.append(("hot plug enable", pads.hpd_en == m._hpd_en.storage))
        if has_notif:
            st = Signal()
            sp.specials += MultiReg(~pads.hpd_notif if "hpd_notif" in inv else pads.hpd_notif, st)
            obls.append(("hot plug status", m._hpd_notif.status == st))
        else:
            obls.append(("hot plug status", m._hpd_notif.status == 1))
        c.equiv(label, m, sp, obls, free=free)


def ir_and(d, oe, o):
    from lvsa import ir
    return ir.op("~", ir.boolean(ir.op("&", d.expr(oe), d.expr(o))))


MIN_OBLIGATIONS = 20
