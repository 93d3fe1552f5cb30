"""V03: pixel to pad mapping and serialisation."""
from lvsa import hooks, ir  # noqa: F401
from lvsa.structure import driver_bb, trace, port, param, clock_of
from migen import *
from .common import DVIEncoderSpec
from .stubs import hdmi_pads, vga_pads, ExternalClocking

META = dict(
    title="Pixels reach the right pads, in the right bit order and polarity",
    statement="On both FPGA families the HDMI driver carries blue with the two sync bits on lane 0, green on lane 1 and red on "
              "lane 2, each as the TMDS encoding of that colour, serialised least significant bit first and complemented "
              "exactly on the lanes whose pads are declared inverted; raw mode sends the three given 10-bit words unchanged, "
              "and the clock lane carries the pixel clock. VGA pads receive the most significant bits of each colour "
              "while data enable is set and black otherwise, and active-low syncs.",
    over=["inputs", "configurations"],
    quant="all pixels and sync values, both families, encoded/raw modes, any subset of inverted pads, all VGA colour widths",
    why="The drivers are built from vendor primitives that the simulator cannot run, so no test reaches them.",
    files=["litevideo/output/driver.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py"],
    mech=[("S7HDMIOutPHY/S7HDMIOutEncoderSerializer", "litevideo/output/hdmi/s7.py"),
          ("S6HDMIOutPHY/_S6HDMIOutEncoderSerializer", "litevideo/output/hdmi/s6.py"),
          ("VGAPHY, Driver", "litevideo/output/driver.py")],
    observe=["serdes primitive data inputs, output buffer pads"],
    technique="structural tracing of primitive netlists plus value numbering of serdes inputs against the DVI encoding",
    note="Decides lane mapping, bit order and polarity up to the documented behaviour of the vendor serdes and buffer "
         "primitives, which are trusted. Spartan-6 gearing assumes the pix/pix2x phase relation the code relies on.",
)


def inst(c, label, bb, of, what):
    return c.req(bb is not None and bb.kind == "Instance" and bb.obj.of == of, "netlist", what,
                 "%s: %s is not driven by a %s primitive" % (label, what, of))


def params(c, label, i, **kw):
    for k, v in kw.items():
        g = param(i, k)
        c.req(g == v, "netlist", "%s.%s" % (i.of, k), "%s: %s parameter %s is %r, expected %r" % (label, i.of, k, g, v))


def clk(c, label, d, i, p, dom):
    r = clock_of(d, port(i, p))
    c.req(r == (dom, False), "netlist", "%s.%s" % (i.of, p),
          "%s: %s port %s is clocked by %r, expected domain %s" % (label, i.of, p, r, dom))


def const(d, e):
    n = d.expr(e)
    t = trace(d, n, 0)
    return t[1] if t[0] == "const" else None


def serdes7(c, label, d, pad_p, pad_n):
    """ordered data expressions (bit, expr) of the OSERDESE2 pair behind a pad, or None"""
    r = driver_bb(d, pad_p)
    if not inst(c, label, r and r[0], "OBUFDS", "positive pad") :
        return None
    rn = driver_bb(d, pad_n)
    c.req(r[1] == "O" and rn is not None and rn[0] is r[0] and rn[1] == "OB", "netlist", "OBUFDS",
          "%s: pads are not the true/complement outputs of one buffer" % label)
    s = trace(d, d.expr(port(r[0].obj, "I")), 0)
    if not inst(c, label, s[1] if s[0] == "bb" else None, "OSERDESE2", "buffer input"):
        return None
    c.req(s[2] == "OQ" and not s[4], "netlist", "OSERDESE2.OQ", "%s: buffer input is not the serdes output" % label)
    m = s[1].obj
    t1 = trace(d, d.expr(port(m, "SHIFTIN1")), 0)
    t2 = trace(d, d.expr(port(m, "SHIFTIN2")), 0)
    if not c.req(t1[0] == "bb" and t2[0] == "bb" and t1[1] is t2[1] and t1[1].kind == "Instance"
                 and t1[1].obj.of == "OSERDESE2" and (t1[2], t2[2]) == ("SHIFTOUT1", "SHIFTOUT2")
                 and t1[1].obj is not m and not t1[4] and not t2[4], "netlist", "OSERDESE2.SHIFT",
                 "%s: serdes cascade is not SHIFTOUTn->SHIFTINn" % label):
        return None
    sl = t1[1].obj
    params(c, label, m, DATA_WIDTH=10, DATA_RATE_OQ="DDR", SERDES_MODE="MASTER")
    params(c, label, sl, DATA_WIDTH=10, DATA_RATE_OQ="DDR", SERDES_MODE="SLAVE")
    for i in (m, sl):
        clk(c, label, d, i, "CLK", "pix5x")
        clk(c, label, d, i, "CLKDIV", "pix")
        c.req(const(d, port(i, "TCE")) == 0, "netlist", "OSERDESE2.TCE", label + ": tristate clock enable not tied off")
        # output enable must come on once reset is released
        t = trace(d, d.expr(port(i, "OCE")), 0)
        ok = t[0] == "const" and t[1] == 1
        if t[0] == "sig" and t[1] in d.sync and d.sync[t[1]][0] == "pix" and not t[3]:
            nx = d.define(t[1])
            rst = d.cds["pix"].rst
            from lvsa.gvn import GVN
            g = GVN(d)
            v = g.ev(nx)[0]
            if rst is None:
                ok = v == 1
            else:
                ok = v == g.b.not_(g.ev(ir.sig(rst))[0])
        c.req(ok, "netlist", "OSERDESE2.OCE", label + ": serdes output is not enabled while out of reset")
    return [(i, port(m, "D%d" % (i + 1))) for i in range(8)] + [(8, port(sl, "D3")), (9, port(sl, "D4"))]


def serdes6(c, label, d, pad_p, pad_n, strobe):
    r = driver_bb(d, pad_p)
    if not inst(c, label, r and r[0], "OBUFDS", "positive pad"):
        return None
    rn = driver_bb(d, pad_n)
    c.req(r[1] == "O" and rn is not None and rn[0] is r[0] and rn[1] == "OB", "netlist", "OBUFDS",
          "%s: pads are not the true/complement outputs of one buffer" % label)
    s = trace(d, d.expr(port(r[0].obj, "I")), 0)
    if not inst(c, label, s[1] if s[0] == "bb" else None, "OSERDES2", "buffer input"):
        return None
    m = s[1].obj
    c.req(s[2] == "OQ" and not s[4], "netlist", "OSERDES2.OQ", "%s: buffer input is not the serdes output" % label)
    t3 = trace(d, d.expr(port(m, "SHIFTIN3")), 0)
    if not c.req(t3[0] == "bb" and t3[1].kind == "Instance" and t3[1].obj.of == "OSERDES2" and t3[2] == "SHIFTOUT3"
                 and t3[1].obj is not m, "netlist", "OSERDES2.SHIFT", "%s: serdes cascade broken" % label):
        return None
    sl = t3[1].obj
    for a, b, i, j in (("SHIFTIN4", "SHIFTOUT4", m, sl), ("SHIFTIN1", "SHIFTOUT1", sl, m), ("SHIFTIN2", "SHIFTOUT2", sl, m)):
        t = trace(d, d.expr(port(i, a)), 0)
        c.req(t[0] == "bb" and t[1].obj is j and t[2] == b, "netlist", "OSERDES2." + a,
              "%s: serdes cascade port %s is not fed by %s" % (label, a, b))
    params(c, label, m, DATA_WIDTH=5, DATA_RATE_OQ="SDR", SERDES_MODE="MASTER")
    params(c, label, sl, DATA_WIDTH=5, DATA_RATE_OQ="SDR", SERDES_MODE="SLAVE")
    for i in (m, sl):
        clk(c, label, d, i, "CLK0", "pix10x")
        clk(c, label, d, i, "CLKDIV", "pix2x")
        c.req(const(d, port(i, "OCE")) == 1, "netlist", "OSERDES2.OCE", label + ": serdes output not enabled")
        t = trace(d, d.expr(port(i, "IOCE")), 0)
        c.req(t[0] == "bb" and t[1].obj.of == "BUFPLL" and t[2] == "SERDESSTROBE", "netlist", "OSERDES2.IOCE",
              label + ": serdes strobe does not come from the BUFPLL")
    return [(i, port(sl, "D%d" % (i + 1))) for i in range(4)] + [(4, port(m, "D1"))]


def half_rate(expr, word, i):
    """the serdes input bit is a pix2x register loading word[i] while the pixel clock is high and word[i+5] otherwise"""
    def ob(d):
        t = trace(d, d.expr(expr), 0)
        if t[0] != "sig" or t[1] not in d.sync or d.sync[t[1]][0] != "pix2x":
            return ir.ZERO
        nx = ir.slc(d.define(t[1]), t[2], t[2] + 1)
        if t[3]:
            nx = ir.op("^", nx, ir.ONE)
        pc = d.expr(ClockSignal("pix"))
        w = d.expr(word)
        return ir.op("==", nx, ir.ite(pc, ir.slc(w, i, i + 1), ir.slc(w, i + 5, i + 6)))
    return ob


class LaneSpec(Module):
    """expected 10-bit word of each lane"""
    def __init__(self, sink, raw, inv, lat):
        self.w = []
        if raw:
            words = [sink.c0, sink.c1, sink.c2[:10]]
        else:
            words = []
            for colour, ctl in ((sink.b, Cat(sink.hsync, sink.vsync)), (sink.g, C(0, 2)), (sink.r, C(0, 2))):
                cs = Signal(2)
                self.comb += cs.eq(ctl)
                e = DVIEncoderSpec(colour, cs, sink.de, lat, "pix")
                self.submodules += e
                words.append(e.out)
        for w, iv in zip(words, inv):
            s = Signal(10)
            self.comb += s.eq(Mux(iv, w ^ 0x3ff, w))
            self.w.append(s)


def lanes(c, family, mode, inverted, extclk=False):
    from litevideo.output.driver import Driver
    label = "Driver(%s,%s,inverted=%s%s)" % (family, mode, ",".join(inverted) or "none", ",external" if extclk else "")
    raw = mode == "raw"
    inv = ["data%d_p" % i in inverted for i in range(3)]
    dev = {"xc6": "xc6slx45", "xc7": "xc7a35t"}[family]
    for k, lat in enumerate([4, 3, 5]):
        pads = hdmi_pads(inverted, ddc=False, hpd=False)
        mk = lambda: Driver(dev, pads, mode, ExternalClocking() if extclk else None)
        m = c.elab(label, mk) if k == 0 else mk()
        if m is None:
            return
        s = LaneSpec(m.sink, raw, inv, lat)
        d = c.design(label, m)
        if d is None:
            return
        obls = []
        n0 = len(c.findings)
        for ln in range(3):
            p, n = getattr(pads, "data%d_p" % ln), getattr(pads, "data%d_n" % ln)
            if family == "xc7":
                bits = serdes7(c, "%s lane %d" % (label, ln), d, p, n)
                if bits is None:
                    return
                obls += [("lane %d bit %d" % (ln, i), e == s.w[ln][i]) for i, e in bits]
            else:
                bits = serdes6(c, "%s lane %d" % (label, ln), d, p, n, None)
                if bits is None:
                    return
                obls += [("lane %d bit %d/%d" % (ln, i, i + 5), half_rate(e, s.w[ln], i)) for i, e in bits]
        obls.append(("sink always ready", m.sink.ready == 1))
        if c.equiv(label, m, s, obls, free=[m.sink], unroll=True, quiet=k < 2 and not raw):
            break
    # clock lane
    if family == "xc7":
        bits = serdes7(c, label + " clock lane", d, pads.clk_p, pads.clk_n)
        if bits is not None:
            iv = "clk_p" in inverted
            word = "0000011111" if iv else "1111100000"
            lane = [(i, e == int(word[i])) for i, e in sorted(bits, key=lambda t: t[0])]
            c.equiv(label, m, None, [("clock lane bit %d" % i, o) for i, o in lane], free=[m.sink])
    else:
        r = driver_bb(d, pads.clk_p)
        if inst(c, label, r and r[0], "OBUFDS", "clock pad"):
            t = trace(d, d.expr(port(r[0].obj, "I")), 0)
            if inst(c, label, t[1] if t[0] == "bb" else None, "ODDR2", "clock buffer input"):
                o = t[1].obj
                iv = "clk_p" in inverted
                c.req(clock_of(d, port(o, "C0")) == ("pix", False) and clock_of(d, port(o, "C1")) == ("pix", True)
                      and (const(d, port(o, "D0")), const(d, port(o, "D1"))) == (int(not iv), int(iv))
                      and const(d, port(o, "CE")) == 1, "netlist", "ODDR2",
                      label + ": clock lane is not the pixel clock with the declared polarity")


def vga(c, dev, rgb):
    from litevideo.output.driver import Driver
    label = "Driver(%s,vga %s)" % (dev, rgb)
    pads = vga_pads(*rgb)
    m = c.elab(label, lambda: Driver(dev, pads, "rgb"))
    if m is None:
        return
    k = m.sink
    obls = [(n, p == Mux(k.de, x[8 - w:], 0)) for n, p, x, w in zip(("red", "green", "blue"), (pads.r, pads.g, pads.b), (k.r, k.g, k.b), rgb)]
    obls += [
            ("hsync active low", pads.hsync_n != k.hsync), ("vsync active low", pads.vsync_n != k.vsync),
            ("never powered down", pads.psave_n == 1), ("always ready", k.ready == 1)]
    c.equiv(label, m, None, obls, free=[m.sink])


def run(c):
    c.rule("Each lane's serdes inputs, found by walking back from the pads through the buffer and serdes primitives, are "
           "value-numbered against the DVI encoding of that lane's colour in transmission order.")
    invs = [(), ("data0_p", "data1_p", "data2_p", "clk_p"), ("data0_p",), ("data1_p",), ("data2_p", "clk_p")]
    for fam in ("xc7", "xc6"):
        for mode in ("rgb", "raw"):
            for iv in invs:
                lanes(c, fam, mode, iv)
        lanes(c, fam, "ycbcr422", ())
    lanes(c, "xc6", "rgb", (), extclk=True)
    for dev in ("xc7a35t", "xc6slx45"):
        for rgb in ((8, 6, 5), (4, 4, 4), (8, 8, 8)):
            vga(c, dev, rgb)


MIN_OBLIGATIONS = 600
