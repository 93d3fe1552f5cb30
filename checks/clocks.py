"""Clock tree walking: rational frequency relation of a clock to its source, through buffers and PLLs."""
from fractions import Fraction as F
from lvsa import ir
from lvsa.structure import trace, port, param
from migen import *
from migen.fhdl.structure import _Value

PLLS = {"PLL_ADV": "CLKFBOUT_MULT", "PLLE2_ADV": "CLKFBOUT_MULT", "MMCME2_ADV": "CLKFBOUT_MULT_F"}
THROUGH = {"BUFG": ("I", "O"), "BUFR": ("I", "O"), "BUFIO": ("I", "O"), "IBUFDS": ("I", "O"), "BUFPLL": ("PLLIN", "IOCLK"),
           "IBUFDS_DIFF_OUT": ("I", "O")}


class Chain:
    """source of a clock: root signal, frequency ratio, inversion, PLLs passed (last first), buffers passed"""
    def __init__(self):
        self.ratio, self.inv, self.plls, self.bufs, self.root, self.why = F(1), False, [], [], None, None


def num(v):
    try:
        return F(str(v)) if v is not None else None
    except ValueError:
        return None


def chain(d, e):
    r = Chain()
    for _ in range(20):
        n = e if isinstance(e, ir.Node) else d.expr(e)
        t = trace(d, n, 0)
        if t[0] == "sig":
            r.inv ^= t[3]
            r.root = t[1]
            return r
        if t[0] != "bb" or t[1].kind != "Instance":
            r.why = "a clock is computed by logic" if t[0] == "expr" else "a clock is constant" if t[0] == "const" else "a clock is driven by %s" % t[1].kind
            return r
        i, p = t[1].obj, t[2]
        r.inv ^= t[4]
        if i.of in THROUGH:
            src, out = THROUGH[i.of]
            if p != out:
                if i.of == "IBUFDS_DIFF_OUT" and p == "OB":
                    r.inv = not r.inv
                else:
                    r.why = "clock taken from port %s of %s" % (p, i.of)
                    return r
            if i.of == "BUFR" and param(i, "BUFR_DIVIDE", "BYPASS") not in ("BYPASS", "1"):
                r.ratio /= int(param(i, "BUFR_DIVIDE"))
            r.bufs.append(i)
            e = port(i, src)
        elif i.of == "DCM_CLKGEN" and p == "CLKFX":
            r.plls.append(i)
            fx = [num(param(i, "CLKFX_MULTIPLY", 4)), num(param(i, "CLKFX_DIVIDE", 1))]
            if not all(v and v > 0 for v in fx):
                r.why = "DCM_CLKGEN has an invalid divider"
                return r
            r.ratio *= fx[0] / fx[1]
            e = port(i, "CLKIN")
        elif i.of in PLLS and p.startswith("CLKOUT"):
            k = p[6:]
            sel, down = port(i, "CLKINSEL"), port(i, "PWRDWN")
            if sel is not None and trace(d, d.expr(sel), 0)[:2] != ("const", 1):
                r.why = "%s does not select its first clock input" % i.of
                return r
            if down is not None and trace(d, d.expr(down), 0)[:2] != ("const", 0):
                r.why = "%s may be powered down" % i.of
                return r
            div = param(i, "CLKOUT%s_DIVIDE" % k, param(i, "CLKOUT%s_DIVIDE_F" % k, 1))
            if num(param(i, "CLKOUT%s_PHASE" % k, 0)) != 0 or num(param(i, "CLKFBOUT_PHASE", 0)) != 0:
                r.why = "%s %s has a phase offset" % (i.of, p)
                return r
            fb = chain_fb(d, i)
            if not fb:
                r.why = "%s feedback is not closed" % i.of
                return r
            if not all(num(v) and num(v) > 0 for v in (param(i, PLLS[i.of], 1), param(i, "DIVCLK_DIVIDE", 1), div)):
                r.why = "%s has an invalid divider" % i.of
                return r
            r.ratio *= num(param(i, PLLS[i.of], 1)) / num(param(i, "DIVCLK_DIVIDE", 1)) / num(div)
            r.plls.append(i)
            e = port(i, "CLKIN1")
        else:
            r.why = "clock driven by port %s of %s" % (p, i.of)
            return r
        if e is None:
            r.why = "%s has no clock input" % i.of
            return r
    r.why = "clock loop"
    return r


def chain_fb(d, i):
    e = port(i, "CLKFBIN")
    for _ in range(4):
        if e is None:
            return False
        t = trace(d, d.expr(e), 0)
        if t[0] != "bb" or t[4]:
            return False
        if t[1].obj is i:
            return t[2] == "CLKFBOUT"
        if t[1].kind != "Instance" or t[1].obj.of not in ("BUFG", "BUFIO", "BUFR"):
            return False
        e = port(t[1].obj, "I")
    return False


def ratios(c, label, d, want, root, what):
    """want: {domain: ratio to root}; -> {domain: Chain}"""
    out = {}
    for n, w in want.items():
        cd = d.cds.get(n)
        if not c.req(cd is not None, "clock-ratio", n, "%s: clock domain %s is not created" % (label, n)):
            continue
        r = chain(d, ir.sig(cd.clk))
        ok = r.why is None and r.root is root and r.ratio == F(w) and not r.inv
        c.req(ok, "clock-ratio", n, "%s: clock of domain %s is %s, expected %s x %s" % (
            label, n, r.why or "%s%s x %s" % ("inverted " if r.inv else "", r.ratio, ir.name(r.root) if r.root is not None else "?"), w, what),
            "%s: %s = %s x %s" % (label, n, w, what))
        if ok:
            out[n] = r
    return out


def lock_of(d, e, pll, regs=0, depth=0):
    """is e (bit 0) the lock indication of pll, possibly through BUFPLL or a synchroniser?  -> (ok, inverted)"""
    t = trace(d, e if isinstance(e, ir.Node) else d.expr(e), 0)
    if t[0] == "sig" and t[1] in d.sync and depth < regs:       # synchroniser stages
        ok, inv = lock_of(d, ir.slc(d.define(t[1]), t[2], t[2] + 1), pll, regs, depth + 1)
        return ok, inv ^ t[3]
    if t[0] != "bb":
        return False, False
    if t[1].kind == "Instance":
        i = t[1].obj
        if i is pll and t[2] == "LOCKED":
            return True, t[4]
        if i.of == "BUFPLL" and t[2] == "LOCK":
            ok, inv = lock_of(d, port(i, "LOCKED"), pll)
            return ok and not inv, t[4]
    return False, False


def resets(c, label, d, chains):
    """every generated domain that has a reset is in reset while the PLL its clock comes from is unlocked"""
    for n, r in chains.items():
        cd = d.cds[n]
        if cd.rst is None or not r.plls:
            continue
        e, why = ir.sig(cd.rst), "its reset is never asserted"
        for _ in range(6):
            t = trace(d, e, 0)
            if t[0] == "bb" and t[1].kind == "AsyncResetSynchronizer":
                ok = not t[4]
                e = d.expr(t[1].ins[0][1])
                if not ok:
                    break
                continue
            break
        ok, inv = lock_of(d, e, r.plls[0])
        c.req(ok and inv, "reset-on-unlock", n, "%s: domain %s is not held in reset while %s is unlocked" % (label, n, r.plls[0].of),
              "%s: %s reset while unlocked" % (label, n))


class DRPSpec(Module):
    """dynamic reconfiguration port of a PLL"""
    def __init__(self, read, write, drdy):
        self.den, self.ready = Signal(), Signal()
        self.comb += self.den.eq(read.re | write.re)
        self.sync += self.ready.eq(~self.den & (drdy | self.ready))


ADR = {"PLL_ADV": 5, "PLLE2_ADV": 7, "MMCME2_ADV": 7}


def drp(c, label, i, read, write, drdy_status, adr, dat_w, dat_r):
    """-> (spec module, obligations)"""
    c.req(len(adr) >= ADR[i.of] and len(dat_w) >= 16 and len(dat_r) >= 16, "register-width", i.of,
          "%s: reconfiguration registers of %s are %d, %d and %d bits wide, its port needs %d, 16 and 16" % (
              label, i.of, len(adr), len(dat_w), len(dat_r), ADR[i.of]), "%s: %s reconfiguration registers cover its port" % (label, i.of))
    s = DRPSpec(read, write, port(i, "DRDY"))
    nm = "%s DRP " % i.of
    return s, [(nm + "enable", port(i, "DEN") == s.den), (nm + "write enable", port(i, "DWE") == write.re), (nm + "ready flag", drdy_status == s.ready),
               (nm + "address", port(i, "DADDR") == adr), (nm + "write data", port(i, "DI") == dat_w), (nm + "read data", dat_r == port(i, "DO")),
               (nm + "clock", ~(port(i, "DCLK") ^ ClockSignal("sys")))]
