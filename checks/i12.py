"""I12: input clock recovery."""
from lvsa import hooks  # noqa: F401
from lvsa.structure import instances, port
from migen import *
from .clocks import ratios, resets, lock_of, drp
from .stubs import hdmi_pads

META = dict(
    title="Input clocks keep the ratios the capture logic needs, reset while unlocked",
    statement="From the received pixel clock the input clocking generates every domain the capture path uses at the exact ratio it needs "
              "(Spartan-6: pix 1, pix2x 2, pix10x 10; 7-series: pix 1, pix1p25x 1.25, pix5x 5; output copies the same) with zero phase and closed PLL "
              "feedback, inverting the clock pair exactly when declared inverted. Domains with a reset are in reset while their PLL is unlocked; lock "
              "is reported to software; each register read/write request is one PLL reconfiguration access whose completion flag is cleared by the request.",
    over=["configurations", "inputs", "schedules"],
    quant="both families, split and shared output clocks, all register access sequences and lock/ready timings",
    why="Clock trees exist only as vendor primitive parameters, which no simulation or bench evaluates.",
    files=["litevideo/input/clocking.py"],
    mech=[("S6Clocking", "litevideo/input/clocking.py:S6Clocking"), ("S7Clocking", "litevideo/input/clocking.py:S7Clocking")],
    observe=["clock domains", "locked", "PLL reconfiguration ports and registers"],
    technique="structural walk of the clock tree with rational arithmetic; value numbering (AWZ) of the reconfiguration handshake",
    note="Ratios are those of the power-up PLL parameters; software may reprogram them. Vendor primitives are trusted.",
)


def check(c, family, inverted, split):
    from litevideo.input.clocking import S6Clocking, S7Clocking
    label = "%sClocking(%s%s)" % (family, "inverted" if inverted else "plain", ",split" if split else "")
    pads = hdmi_pads(("clk_p",) if inverted else (), ddc=False)
    for freq in (148.5e6, 74.25e6):
        m = c.elab(label, (lambda: S6Clocking(pads, freq, split)) if family == "S6" else lambda: S7Clocking(pads, freq, split))
    d = m and c.design(label, m)
    if d is None:
        return
    want = {"pix": "1", "pix_o": "1", "pix2x": "2", "pix10x": "10"} if family == "S6" else {
        "pix": "1", "pix_o": "1", "pix1p25x": "5/4", "pix5x": "5", "pix5x_o": "5"}
    root = pads.clk_p
    if inverted:
        # the complementary buffer output is the true clock
        from .clocks import chain
        from lvsa import ir
        for n in want:
            if n in d.cds:
                r = chain(d, ir.sig(d.cds[n].clk))
                c.req(r.why is None and r.inv and r.root is root, "clock-ratio", n, "%s: domain %s does not use the inverted clock pair" % (label, n))
        return
    ch = ratios(c, label, d, want, root, "received pixel clock")
    if len(ch) < len(want):
        return
    for i in instances(m, "IBUFDS") + instances(m, "IBUFDS_DIFF_OUT"):
        c.req(port(i, "I") is pads.clk_p and port(i, "IB") is pads.clk_n, "netlist", i.of, label + ": clock pads are swapped")
    resets(c, label, d, ch)
    pll = ch["pix"].plls[-1]
    ok, inv = lock_of(d, m._locked.status, pll, 4)
    c.req(ok and not inv, "lock", "locked register", label + ": locked register does not report PLL lock")
    ok, inv = lock_of(d, m.locked, pll, 4)
    c.req(ok and not inv, "lock", "locked", label + ": locked does not report PLL lock")
    for n in ("pix10x",) if family == "S6" else ():
        bp = next((b for b in ch[n].bufs if b.of == "BUFPLL"), None)
        from lvsa.structure import clock_of, param, trace
        if c.req(bp is not None, "netlist", "BUFPLL", label + ": serial clock has no BUFPLL"):
            c.req(param(bp, "DIVIDE") == 5 and clock_of(d, port(bp, "GCLK")) == ("pix2x", False), "netlist", "BUFPLL",
                  label + ": BUFPLL does not divide by 5 against pix2x")
            t = trace(d, d.expr(m.serdesstrobe), 0)
            c.req(t[0] == "bb" and t[1].obj is bp and t[2] == "SERDESSTROBE" and not t[4], "netlist", "BUFPLL", label + ": serdes strobe is not the BUFPLL's")
    p = "pll" if family == "S6" else "mmcm"
    g = lambda n: getattr(m, "_%s_%s" % (p, n))
    s, ob = drp(c, label, pll, g("read"), g("write"), g("drdy").status, g("adr").storage, g("dat_w").storage, g("dat_r").status)
    ob.append(("reset register drives the PLL", port(pll, "RST") == g("reset").storage))
    specs = [s]
    c.req(g("reset").storage.reset.value == 1, "reset", "PLL reset", label + ": PLL does not start in reset")
    if split:
        p2 = ch["pix_o"].plls[0]
        if c.req(p2 is not pll, "clock-ratio", "pix_o", label + ": split output clock does not come from its own PLL"):
            c.req(ch["pix5x_o"].plls[0] is p2, "clock-ratio", "pix5x_o", label + ": split output clocks come from different PLLs")
            s, o2 = drp(c, label, p2, m._mmcm_read_o, m._mmcm_write_o, m._mmcm_drdy_o.status, g("adr").storage, g("dat_w").storage, m._mmcm_dat_o_r.status)
            ob += o2 + [("reset register drives the second PLL", port(p2, "RST") == g("reset").storage)]
            specs.append(s)
    csrs = [x for x in vars(m).values() if type(x).__name__ in ("CSR", "CSRStorage")]
    S = Module()
    S.submodules += specs
    c.equiv(label, m, S, ob, free=csrs + [pads])


def run(c):
    c.rule("Each clock domain is walked back through buffers and PLLs to the pads and its ratio computed exactly; lock, reset and "
           "reconfiguration signals are traced or value-numbered.")
    check(c, "S6", False, None)
    for inv in (False, True):
        for split in (False, True):
            check(c, "S7", inv, split)


MIN_OBLIGATIONS = 40
