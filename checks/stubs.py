"""Stand-ins for platform objects (pads, DRAM ports) used to elaborate /repo modules."""
from migen import *
from litedram.common import LiteDRAMNativePort


def hdmi_pads(inverted=(), hpd=True, pupd=False, ddc=True, clk=True):
    l = []
    if clk:
        l += [("clk_p", 1), ("clk_n", 1)]
    for i in range(3):
        l += [("data%d_p" % i, 1), ("data%d_n" % i, 1)]
    if ddc:
        l += [("scl", 1), ("sda", 1)]
    # hpd: True (both pins), False, "en" or "notif"
    l += [(n, 1) for n in ("hpd_en", "hpd_notif") if hpd is True or hpd and n == "hpd_" + hpd]
    if pupd:
        l += [("sda_pu", 1), ("sda_pd", 1)]
    p = Record(l, name="pads")
    for n in inverted:
        getattr(p, n).inverted = True
    return p


def vga_pads(r=5, g=6, b=5):
    return Record([("clk", 1), ("hsync_n", 1), ("vsync_n", 1), ("psave_n", 1),
                   ("r", r), ("g", g), ("b", b)], name="vga")


def rport(dw, cd="pix", aw=24):
    return LiteDRAMNativePort("read", aw, dw, clock_domain=cd)


def wport(dw, cd="sys", aw=24):
    return LiteDRAMNativePort("write", aw, dw, clock_domain=cd)


class ExternalClocking:
    def __init__(self):
        self.pll0_pix10x = Signal()
        self.pll1_pix2x = Signal()
        self.pll2_pix = Signal()
        self.pll_locked = Signal()
