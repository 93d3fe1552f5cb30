"""I11: TMDS data capture (deserialisers, delay control, phase detector)."""
from lvsa import hooks  # noqa: F401
from lvsa.structure import driver_bb, instances, trace, port, param, clock_of
from migen import *
from migen.genlib.cdc import MultiReg, PulseSynchronizer, BusSynchronizer, Gearbox
from .v03 import params, clk, const

META = dict(
    title="Data capture delivers the received bits unaltered and drives the delays as told",
    statement="On both FPGA families every bit received on a data pair reaches the 10-bit words exactly once, earliest received bit "
              "least significant, complemented exactly when the positive pad is declared inverted. The delay control register issues to the "
              "master/slave delay elements exactly the requested calibrate, reset, increment and decrement pulses, busy reads back until the "
              "element has finished, and the phase register flags a saturating early/late tally that restarts from the middle on reset.",
    over=["inputs", "schedules", "configurations"],
    quant="all received bit streams, all register writes, both families, inverted or not, all tally widths",
    why="Built from vendor primitives in three clock domains that the simulator cannot run; no bench touches it.",
    files=["litevideo/input/datacapture.py"],
    mech=[("S6DataCapture", "litevideo/input/datacapture.py:S6DataCapture"), ("S7DataCapture", "litevideo/input/datacapture.py:S7DataCapture"),
          ("S7PhaseDetector", "litevideo/input/datacapture.py:S7PhaseDetector")],
    observe=["captured word d", "delay element control ports", "dly_busy, phase, cntvalueout registers"],
    technique="structural tracing of the primitive netlist plus value numbering (AWZ) of words, tallies and control pulses",
    note="Vendor serdes/delay primitives and Migen's Gearbox and synchronisers are trusted; one synchroniser request at a time is assumed.",
)


class Pulses(Module):
    """one-shot requests bits of a control CSR, carried to another domain"""
    def __init__(self, ctl, n, dom):
        self.o = []
        for i in range(n):
            ps = PulseSynchronizer("sys", dom)
            self.submodules += ps
            self.comb += ps.i.eq(ctl.re & ctl.r[i])
            self.o.append(ps.o)


class Tally(Module):
    def __init__(self, n, dom, restart_re, run, late, early):
        mid = 1 << (n - 1)
        v, ps = Signal(n, reset=mid), PulseSynchronizer("sys", dom)
        self.submodules += ps
        self.comb += ps.i.eq(restart_re)
        top, bot = v == (1 << n) - 1, v == 0
        sync = getattr(self.sync, dom)
        sync += If(ps.o, v.eq(mid)).Elif(run & ~(top | bot), If(late, v.eq(v + 1)).Elif(early, v.eq(v - 1)))
        self.status = Signal(2)
        fl = Signal(2)
        sync += fl.eq(Cat(top, bot))
        self.specials += MultiReg(fl, self.status)


class Spec6(Module):
    def __init__(self, m, n, inv, q, valid, incdec, busy):
        self.submodules.p = p = Pulses(m._dly_ctl, 6, "pix2x")
        self.cal, self.rst = [p.o[0], p.o[2]], [p.o[1], p.o[3]]
        self.inc, self.ce = p.o[4], Signal()
        self.comb += self.ce.eq(p.o[4] | p.o[5])
        # busy is reported from the request until the element has started and finished it
        self.busy = Signal(2)
        for i in range(2):
            pend, done = Signal(), PulseSynchronizer("pix2x", "sys")
            self.submodules += done
            self.sync.pix2x += [done.i.eq(pend & ~busy[i]), If(pend, pend.eq(busy[i])).Else(pend.eq(self.cal[i] | self.ce))]
            req = m._dly_ctl.re & ((m._dly_ctl.r[2 * i] | m._dly_ctl.r[4] | m._dly_ctl.r[5]))
            self.sync += If(req, self.busy[i].eq(1)).Elif(done.o, self.busy[i].eq(0))
        self.submodules.t = Tally(n, "pix2x", m._phase_reset.re, ~(busy[0] | busy[1]), valid & ~incdec, valid & incdec)
        w, self.d = Signal(10), Signal(10)
        self.sync.pix2x += w.eq(Cat(w[5:], *q))
        self.sync.pix += self.d.eq(w ^ (0x3ff if inv else 0))


class Spec7(Module):
    def __init__(self, m, n, inv, qm, qs, cnt):
        self.submodules.p = p = Pulses(m._dly_ctl, 5, "pix1p25x")
        self.rst, self.inc = p.o[0], [p.o[1], p.o[3]]
        self.ce = [Signal(), Signal()]
        self.comb += [self.ce[0].eq(p.o[1] | p.o[2]), self.ce[1].eq(p.o[3] | p.o[4])]
        # the slave samples the complementary buffer output
        a, b, a1 = Signal(8), Signal(8), Signal(8)
        self.comb += [a.eq(Cat(*qm) ^ (0xff if inv else 0)), b.eq(Cat(*qs) ^ (0 if inv else 0xff))]
        self.sync.pix1p25x += a1.eq(a)
        self.submodules.t = Tally(n, "pix1p25x", m._phase_reset.re, 1, (a != a1) & (a != b), (a != a1) & (a == b))
        self.submodules.g = g = Gearbox(8, "pix1p25x", 10, "pix")
        self.d = g.o
        self.comb += g.i.eq(a)
        self.cnt = []
        for x in cnt:
            bs = BusSynchronizer(5, "pix1p25x", "sys")
            self.submodules += bs
            self.comb += bs.i.eq(x)
            self.cnt.append(bs.o)


def role(c, label, l, what, **kw):
    """split a pair of primitives by their SERDES_MODE"""
    ms = [i for i in l if param(i, "SERDES_MODE") == "MASTER"]
    ss = [i for i in l if param(i, "SERDES_MODE") == "SLAVE"]
    ok = c.req(len(l) == 2 and len(ms) == 1 and len(ss) == 1, "netlist", what, "%s: expected one master and one slave %s" % (label, what))
    return (ms[0], ss[0]) if ok else None


def feeds(c, label, d, i, p, src, sp):
    t = trace(d, d.expr(port(i, p)), 0)
    c.req(t[0] == "bb" and t[1].obj is src and t[2] == sp and not t[4], "netlist", "%s.%s" % (i.of, p),
          "%s: %s.%s is not fed by %s.%s" % (label, i.of, p, src.of, sp))


def s6(c, n, inv):
    from litevideo.input.datacapture import S6DataCapture
    label = "S6DataCapture(ntbits=%d%s)" % (n, ",inverted" if inv else "")
    pp, pn = Signal(name="data_p"), Signal(name="data_n")
    if inv:
        pp.inverted = True
    m = c.elab(label, lambda: S6DataCapture(pp, pn, n))
    d = m and c.design(label, m)
    if d is None:
        return
    bufs = instances(m, "IBUFDS")
    dl = role(c, label, instances(m, "IODELAY2"), "IODELAY2")
    sd = role(c, label, instances(m, "ISERDES2"), "ISERDES2")
    if not c.req(len(bufs) == 1, "netlist", "IBUFDS", label + ": no single input buffer") or dl is None or sd is None:
        return
    c.req(port(bufs[0], "I") is pp and port(bufs[0], "IB") is pn, "netlist", "IBUFDS", label + ": pads are swapped at the input buffer")
    for i, s in zip(dl, sd):
        feeds(c, label, d, i, "IDATAIN", bufs[0], "O")
        feeds(c, label, d, s, "D", i, "DATAOUT")
        params(c, label, i, DELAY_SRC="IDATAIN", IDELAY_TYPE="DIFF_PHASE_DETECTOR", DATA_RATE="SDR")
        params(c, label, s, BITSLIP_ENABLE="FALSE", DATA_RATE="SDR", DATA_WIDTH=5, INTERFACE_TYPE="RETIMED")
        clk(c, label, d, i, "CLK", "pix2x")
        clk(c, label, d, i, "IOCLK0", "pix10x")
        clk(c, label, d, s, "CLK0", "pix10x")
        clk(c, label, d, s, "CLKDIV", "pix2x")
        c.req(const(d, port(i, "T")) == 1, "netlist", "IODELAY2.T", label + ": delay element not in input mode")
        c.req((const(d, port(s, "CE0")), const(d, port(s, "RST")), const(d, port(s, "BITSLIP"))) == (1, 0, 0), "netlist", "ISERDES2",
              label + ": deserialiser not enabled, or in reset, or slipping")
        t = trace(d, d.expr(port(s, "IOCE")), 0)
        c.req(t[:2] == ("sig", m.serdesstrobe) and not t[3], "netlist", "ISERDES2.IOCE", label + ": serdes strobe not connected")
    params(c, label, dl[0], COUNTER_WRAPAROUND="STAY_AT_LIMIT")
    params(c, label, dl[1], COUNTER_WRAPAROUND="WRAPAROUND")
    feeds(c, label, d, sd[1], "SHIFTIN", sd[0], "SHIFTOUT")
    feeds(c, label, d, sd[0], "SHIFTIN", sd[1], "SHIFTOUT")
    q = [port(sd[1], "Q4")] + [port(sd[0], "Q%d" % k) for k in range(1, 5)]
    busy = [port(i, "BUSY") for i in dl]
    if not c.req(all(x is not None for x in q + busy + [port(sd[0], "VALID"), port(sd[0], "INCDEC")]), "netlist", "ISERDES2",
                 label + ": a deserialiser or busy output is unconnected"):
        return
    s = Spec6(m, n, inv, q, port(sd[0], "VALID"), port(sd[0], "INCDEC"), busy)
    ob = [("captured word", m.d == s.d), ("busy", m._dly_busy.status == s.busy), ("phase", m._phase.status == s.t.status)]
    for k, nm in ((0, "master"), (1, "slave")):
        ob += [(nm + " CAL", port(dl[k], "CAL") == s.cal[k]), (nm + " RST", port(dl[k], "RST") == s.rst[k]),
               (nm + " INC", port(dl[k], "INC") == s.inc), (nm + " CE", port(dl[k], "CE") == s.ce)]
    c.equiv(label, m, s, ob, free=[pp, pn, m.serdesstrobe, m._dly_ctl, m._phase_reset])


def s7(c, n, inv):
    from litevideo.input.datacapture import S7DataCapture
    label = "S7DataCapture(ntbits=%d%s)" % (n, ",inverted" if inv else "")
    pp, pn = Signal(name="data_p"), Signal(name="data_n")
    if inv:
        pp.inverted = True
    m = c.elab(label, lambda: S7DataCapture(pp, pn, n))
    d = m and c.design(label, m)
    if d is None:
        return
    bufs = instances(m, "IBUFDS_DIFF_OUT")
    sd, dl = instances(m, "ISERDESE2"), instances(m, "IDELAYE2")
    if not c.req(len(bufs) == 1 and len(sd) == 2 and len(dl) == 2, "netlist", "S7 input", label + ": expected one buffer and two delay/serdes pairs"):
        return
    c.req(port(bufs[0], "I") is pp and port(bufs[0], "IB") is pn, "netlist", "IBUFDS_DIFF_OUT", label + ": pads are swapped at the input buffer")
    pair = {}
    for s in sd:
        t = trace(d, d.expr(port(s, "DDLY")), 0)
        if not c.req(t[0] == "bb" and t[1].obj in dl and t[2] == "DATAOUT" and not t[4], "netlist", "ISERDESE2.DDLY",
                     label + ": deserialiser input is not a delay element output"):
            return
        u = trace(d, d.expr(port(t[1].obj, "IDATAIN")), 0)
        if not c.req(u[0] == "bb" and u[1].obj is bufs[0] and u[2] in ("O", "OB") and not u[4], "netlist", "IDELAYE2.IDATAIN",
                     label + ": delay element input is not a buffer output"):
            return
        pair[u[2]] = (t[1].obj, s)
        params(c, label, s, DATA_WIDTH=8, DATA_RATE="DDR", SERDES_MODE="MASTER", INTERFACE_TYPE="NETWORKING", NUM_CE=1, IOBDELAY="IFD")
        params(c, label, t[1].obj, DELAY_SRC="IDATAIN", IDELAY_TYPE="VARIABLE", PIPE_SEL="FALSE", CINVCTRL_SEL="FALSE")
        clk(c, label, d, t[1].obj, "C", "pix1p25x")
        clk(c, label, d, s, "CLKDIV", "pix1p25x")
        clk(c, label, d, s, "CLK", "pix5x")
        c.req(clock_of(d, port(s, "CLKB")) == ("pix5x", True), "netlist", "ISERDESE2.CLKB", label + ": CLKB is not the inverted serial clock")
        c.req((const(d, port(s, "CE1")), const(d, port(s, "BITSLIP"))) == (1, 0), "netlist", "ISERDESE2",
              label + ": deserialiser not enabled or slipping")
        c.req(const(d, port(t[1].obj, "LDPIPEEN")) == 0, "netlist", "IDELAYE2.LDPIPEEN", label + ": LDPIPEEN is not tied off")
    if not c.req(set(pair) == {"O", "OB"}, "netlist", "IBUFDS_DIFF_OUT", label + ": both phases sample the same buffer output"):
        return
    (dm, sm), (ds, ss) = pair["O"], pair["OB"]
    qm = [port(sm, "Q%d" % (8 - k)) for k in range(8)]
    qs = [port(ss, "Q%d" % (8 - k)) for k in range(8)]
    cnt = [port(dm, "CNTVALUEOUT"), port(ds, "CNTVALUEOUT")]
    if not c.req(all(x is not None for x in qm + qs + cnt), "netlist", "ISERDESE2", label + ": a deserialiser output is unconnected"):
        return
    if not c.req(all(len(x) >= 5 for x in cnt), "register-width", "tap count", label + ": part of a five-bit tap count is not connected"):
        return
    c.widths(label, ("master tap count", m._cntvalueout_m.status, 5), ("slave tap count", m._cntvalueout_s.status, 5))
    s = Spec7(m, n, inv, qm, qs, cnt)
    ob = [("captured word", m.d == s.d), ("phase", m._phase.status == s.t.status),
          ("master tap count", m._cntvalueout_m.status == s.cnt[0]), ("slave tap count", m._cntvalueout_s.status == s.cnt[1])]
    for k, (i, nm) in enumerate(((dm, "master"), (ds, "slave"))):
        ob += [(nm + " LD", port(i, "LD") == s.rst), (nm + " INC", port(i, "INC") == s.inc[k]), (nm + " CE", port(i, "CE") == s.ce[k])]
    c.equiv(label, m, s, ob, free=[pp, pn, m._dly_ctl, m._phase_reset])


def run(c):
    c.rule("Serdes and delay primitives are found and traced to the pads; captured word, delay control ports, busy, phase and tap count "
           "registers are value-numbered against the specification.")
    for n in (8, 2, 3, 4, 5, 6, 7, 9, 10, 12, 16) if c.tier == "quick" else range(2, 25):
        for inv in (False, True):
            s6(c, n, inv)
            s7(c, n, inv)


MIN_OBLIGATIONS = 100
