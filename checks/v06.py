"""V06: output clock generation."""
from lvsa import hooks, ir  # noqa: F401
from lvsa.structure import instances, port, param, clock_of, trace
from migen import *
from .clocks import chain, ratios, resets, lock_of, drp
from .stubs import hdmi_pads, vga_pads, ExternalClocking

META = dict(
    title="Output clocks keep the serialiser ratios and take every reconfiguration request",
    statement="The output clock generators (Spartan-6, 7-series) produce all pixel and serialiser clocks from one PLL at exact "
              "ratios (Spartan-6 pix2x 2, pix10x 10 with the matching strobe; 7-series pix5x 5), zero phase, closed feedback, or take them unchanged "
              "from an external generator. A frequency command is shifted into the clock synthesiser as exactly its ten bits, least significant first, "
              "a go command as one further enable, busy is reported long enough to space commands; each PLL register request is one "
              "access whose completion flag the request clears. The pixel domain is in reset while unlocked where it has a reset.",
    over=["configurations", "inputs", "schedules"],
    quant="both families, internal and external clocking, all register access sequences and lock/ready timings",
    why="Clock trees exist only as vendor primitive parameters and the programming port has no bench.",
    files=["litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py"],
    mech=[("S6HDMIOutClocking", "litevideo/output/hdmi/s6.py:S6HDMIOutClocking"), ("S7HDMIOutClocking", "litevideo/output/hdmi/s7.py:S7HDMIOutClocking")],
    observe=["clock domains, status register, synthesiser programming pins, PLL reconfiguration ports"],
    technique="structural walk of the clock tree with rational arithmetic; value numbering (AWZ) of programming and reconfiguration handshakes",
    note="Ratios are those of the power-up PLL parameters; vendor primitives are trusted.",
)


class DCMSpec(Module):
    """clock synthesiser programming: 10 data bits, then a gap"""
    def __init__(self, m):
        self.data, self.en, self.busy, self.rst = [Signal() for _ in range(4)]
        n, g, w = Signal(4), Signal(4), Signal(10)
        self.sync += If(m._send_cmd_data.re, w.eq(m._cmd_data.storage), n.eq(10), g.eq(13)).Else(
            If(n != 0, n.eq(n - 1), w.eq(w[1:])), If(g != 0, g.eq(g - 1)))
        self.comb += [self.data.eq((n != 0) & w[0]), self.en.eq((n != 0) | m._send_go.re), self.busy.eq(g != 0)]


def clock(d, n):
    d.expr(ClockSignal(n))
    return d.cds[n].clk


def csrs(m):
    return [x for x in vars(m).values() if type(x).__name__ in ("CSR", "CSRStorage")]


def s6(c, pads, kind):
    from litevideo.output.hdmi.s6 import S6HDMIOutClocking
    label = "S6HDMIOutClocking(%s)" % kind
    m = c.elab(label, lambda: S6HDMIOutClocking(pads, None))
    d = m and c.design(label, m)
    if d is None:
        return
    base = clock(d, "base50")
    ch = ratios(c, label, d, {"pix": "1/2", "pix2x": "1", "pix10x": "5"}, base, "base50 clock (half frequency at power up)")
    if len(ch) < 3:
        return
    pll, dcm = ch["pix"].plls[0], ch["pix"].plls[-1]
    c.req(dcm.of == "DCM_CLKGEN" and all(r.plls == [pll, dcm] for r in ch.values()), "clock-ratio", "pix",
          label + ": pixel and serialiser clocks do not share one PLL behind the synthesiser")
    bp = next((b for b in ch["pix10x"].bufs if b.of == "BUFPLL"), None)
    strobe(c, label, d, m, bp)
    if bp is not None:
        ok, inv = lock_of(d, port(bp, "LOCKED"), pll)
        c.req(ok and not inv, "lock", "BUFPLL", label + ": BUFPLL lock input is not the PLL's")
    ok, inv = lock_of(d, ir.slc(d.expr(m._status.status), 3, 4), pll, 4)
    c.req(ok and not inv, "lock", "status[3]", label + ": status bit 3 is not the multiplier lock")
    s = DCMSpec(m)
    p, ob = drp(c, label, pll, m._pll_read, m._pll_write, m._pll_drdy.status, m._pll_adr.storage, m._pll_dat_w.storage, m._pll_dat_r.status)
    locked, done = port(dcm, "LOCKED"), port(dcm, "PROGDONE")
    ob += [("programming data", ~(port(dcm, "PROGEN") & (port(dcm, "PROGDATA") ^ s.data))), ("programming enable", port(dcm, "PROGEN") == s.en),
           ("busy", m._status.status[0] == s.busy), ("done", m._status.status[1] == done), ("synthesiser lock", m._status.status[2] == locked),
           ("PLL reset", s.rst == (m._pll_reset.storage | (locked == 0))),
           ("programming clock", ~(port(dcm, "PROGCLK") ^ ClockSignal("sys")))]
    S = Module()
    S.submodules += [s, p]
    S.comb += s.rst.eq(port(pll, "RST"))
    c.equiv(label, m, S, ob, free=csrs(m))


def strobe(c, label, d, m, bp):
    if c.req(bp is not None, "netlist", "BUFPLL", label + ": serial clock has no BUFPLL"):
        c.req(param(bp, "DIVIDE") == 5 and clock_of(d, port(bp, "GCLK")) == ("pix2x", False), "netlist", "BUFPLL",
              label + ": BUFPLL does not divide by 5 against pix2x")
        t = trace(d, d.expr(m.serdesstrobe), 0)
        c.req(t[0] == "bb" and t[1].obj is bp and t[2] == "SERDESSTROBE" and not t[4], "netlist", "BUFPLL", label + ": serdes strobe is not the BUFPLL's")


def s6ext(c, pads, kind):
    from litevideo.output.hdmi.s6 import S6HDMIOutClocking
    label = "S6HDMIOutClocking(%s,external)" % kind
    e = ExternalClocking()
    m = c.elab(label, lambda: S6HDMIOutClocking(pads, e))
    d = m and c.design(label, m)
    if d is None:
        return
    for n, src in (("pix", e.pll2_pix), ("pix2x", e.pll1_pix2x), ("pix10x", e.pll0_pix10x)):
        r = ratios(c, label, d, {n: 1}, src, "the external clock").get(n)
    if r is not None:
        bp = next((b for b in r.bufs if b.of == "BUFPLL"), None)
        strobe(c, label, d, m, bp)
        t = trace(d, d.expr(port(bp, "LOCKED")), 0) if bp is not None else (0,)
        c.req(t[:2] == ("sig", e.pll_locked) and not t[3], "lock", "BUFPLL", label + ": BUFPLL lock input is not the external PLL's")


def s7(c, pads, kind):
    from litevideo.output.hdmi.s7 import S7HDMIOutClocking
    label = "S7HDMIOutClocking(%s)" % kind
    m = c.elab(label, lambda: S7HDMIOutClocking(pads, None))
    d = m and c.design(label, m)
    if d is None:
        return
    base = clock(d, "clk100")
    ch = {n: chain(d, ir.sig(d.cds[n].clk)) for n in ("pix", "pix5x") if n in d.cds}
    ok = len(ch) == 2 and all(r.why is None and r.root is base and not r.inv for r in ch.values())
    if not c.req(ok and ch["pix5x"].ratio == 5 * ch["pix"].ratio and ch["pix"].plls == ch["pix5x"].plls, "clock-ratio", "pix5x",
                 "%s: pix5x is not 5 x pix from one PLL on clk100 (%s)" % (label, {n: r.why or str(r.ratio) for n, r in ch.items()})):
        return
    c.req(d.cds["pix"].rst is not None, "reset-on-unlock", "pix", label + ": pixel domain has no reset")
    resets(c, label, d, ch)
    i = ch["pix"].plls[0]
    s, ob = drp(c, label, i, m._mmcm_read, m._mmcm_write, m._mmcm_drdy.status, m._mmcm_adr.storage, m._mmcm_dat_w.storage, m._mmcm_dat_r.status)
    ob.append(("reset register drives the PLL", port(i, "RST") == m._mmcm_reset.storage))
    c.equiv(label, m, s, ob, free=csrs(m))
    if kind == "vga":
        c.req(clock_of(d, pads.clk) == ("pix", False), "netlist", "vga clk", label + ": VGA clock pad is not the pixel clock")


def run(c):
    c.rule("Each clock domain is walked back through buffers, PLLs and the clock synthesiser and its ratio computed exactly; programming and "
           "reconfiguration handshakes are value-numbered.")
    for kind, pads in (("hdmi", lambda: hdmi_pads(ddc=False, hpd=False)), ("vga", vga_pads)):
        s6(c, pads(), kind)
        s6ext(c, pads(), kind)
        s7(c, pads(), kind)


MIN_OBLIGATIONS = 60
