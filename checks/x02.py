"""X02: clock domain crossing discipline."""
from lvsa import hooks, ir
from lvsa.gvn import GVN
from lvsa.structure import comb_leaves, clock_of, fragment, port
from migen import *
from migen.genlib.cdc import MultiReg
from .clocks import chain
from .stubs import hdmi_pads, vga_pads, rport, wport, ExternalClocking
from . import term

META = dict(
    title="No value crosses between unrelated clocks except through a proper synchroniser",
    statement="In every register, memory port and vendor primitive of the complete inputs, outputs and the terminal, all sampled values come from the same "
              "clock or one derived from the same source clock; every other crossing goes through a synchroniser of that destination clock, fed by a "
              "register of one source clock. Several bits cross together only in FIFOs and handshakes, held stable while sampled, or as status for software. "
              "External asynchronous pins are synchronised before use; registers seen by software are driven in the system domain.",
    over=["schedules", "configurations"],
    quant="all phase relations and frequencies of unrelated clocks",
    why="Simulation models no metastability or skew; a missing synchroniser passes every test and fails in the field.",
    files=["litevideo/input/*.py", "litevideo/output/*.py", "litevideo/terminal/core.py"],
    mech=[("clock crossings of the input", "litevideo/input/__init__.py:HDMIIn"), ("clock crossings of the output", "litevideo/output/core.py:VideoOutCore"),
          ("capture delay control crossings", "litevideo/input/datacapture.py:S7DataCapture")],
    observe=["every register, memory port, primitive pin and status register of the elaborated systems"],
    technique="clock-domain dataflow analysis over the elaborated netlist; clock relations from the clock tree; hold conditions of handshakes by value numbering",
    note="The line delay (delay_base) is configuration set while video is stopped. Migen/LiteX FIFOs and synchronisers are trusted in themselves. PLL lock "
         "outputs act as asynchronous resets.",
)

# clock pin of vendor primitives' data pins
CLKPIN = {"OSERDESE2": "CLKDIV", "ISERDESE2": "CLKDIV", "OSERDES2": "CLKDIV", "ISERDES2": "CLKDIV", "IODELAY2": "CLK", "IDELAYE2": "C",
          "PLL_ADV": "DCLK", "MMCME2_ADV": "DCLK", "PLLE2_ADV": "DCLK", "DCM_CLKGEN": "PROGCLK", "ODDR2": "C0"}
# pins that are clocks, pads, asynchronous controls or chip-internal routing
SKIP = {"CLK", "CLKB", "CLK0", "CLK1", "CLKDIV", "CLKDIVP", "OCLK", "OCLKB", "C", "C0", "C1", "CLKIN", "CLKIN1", "CLKIN2", "CLKFBIN", "DCLK", "PROGCLK", "RST",
        "PWRDWN", "IOCE", "IOCLK0", "IOCLK1", "D", "DDLY", "IDATAIN", "SHIFTIN1", "SHIFTIN2", "SHIFTIN3", "SHIFTIN4", "SHIFTIN", "DATAIN", "S", "R"}
DATA_D = {"OSERDES2", "OSERDESE2"}
# the serialisers' resets are released in step with their word clock
SERDES = DATA_D | {"ISERDES2", "ISERDESE2"}
ASYNC_OUT = {"LOCKED", "LOCK", "IOCLK"}
DCM_ASYNC = {"LOCKED", "PROGDONE"}


class Domains:
    def __init__(self, d, ext):
        self.d, self.ext, self._g = d, ext, {}

    def group(self, cd):
        """clock domains from one source clock belong together"""
        if cd not in self._g:
            r = self.d.cds.get(cd)
            g = cd
            if r is not None and r.clk is not None:
                ch = chain(self.d, ir.sig(r.clk))
                n = clock_of(self.d, ir.sig(r.clk))
                if ch.root is not None and ch.why is None:
                    g = self.ext.get(ch.root, cd if ch.root is r.clk else "clk%d" % ch.root.duid)
                elif n:
                    g = n[0]
            self._g[cd] = g
        return self._g[cd]

    def pin_group(self, inst):
        p = CLKPIN.get(inst.of)
        e = p and port(inst, p)
        if e is None:
            return None
        n = clock_of(self.d, e)
        if n is None:
            ch = chain(self.d, e)
            return self.ext.get(ch.root, "clk%d" % ch.root.duid) if ch.why is None else None
        return self.group(n[0])

    def of(self, s):
        """set of (group, how) of a non-combinational signal; group None: no clock (constant), "async": external pin"""
        d = self.d
        if s in d.sync:
            return {(self.group(d.sync[s][0]), "register")}
        if s in d.bbdrv:
            out = set()
            for bb, p, _ in d.bbdrv[s].values():
                if bb.kind == "MultiReg":
                    out.add((self.group(bb.obj.odomain), "synchroniser"))
                elif bb.kind == "Memory":
                    out.add((self.group(bb.obj.ports[int(p[1:].split(".")[0])].clock.cd), "memory"))
                elif bb.kind == "Instance":
                    if p in ASYNC_OUT:
                        out.add(("lock", p))
                    elif bb.obj.of in CLKPIN:
                        out.add((self.pin_group(bb.obj), bb.obj.of) if bb.obj.of != "DCM_CLKGEN" or p not in DCM_ASYNC else ("async", p))
                    else:
                        out.add(("clock" if bb.obj.of in ("BUFG", "BUFIO", "BUFR", "BUFPLL") else "async", bb.obj.of))
                elif bb.kind == "Tristate":
                    out.add(("async", "pad"))
                elif bb.kind == "AsyncResetSynchronizer":
                    out.add((self.group(bb.obj.cd.name), "reset"))
                else:
                    out.add((None, bb.kind))
            return out
        for cd in d.cds.values():           # a reset the integrator drives
            if cd.rst is s:
                return {(self.group(cd.name), "reset")}
        e = self.ext.get(s)
        return {(self.group(e) if e in d.cds else e, "input")}


def registers_of(m):
    try:
        return list(m.get_csrs())
    except AttributeError:
        return []


def check(c, label, m, ext, pads=()):
    d = c.design(label, m, lower_multireg=False)
    if d is None:
        return
    for s in pads:
        ext[s] = "async"
    csr_status = []
    for r in registers_of(m):
        k = type(r).__name__
        for a in ("storage", "re", "r", "we"):
            s = getattr(r, a, None)
            if isinstance(s, Signal) and s not in d.sync and s not in d.comb:
                ext[s] = "sys"
        if k == "CSRStatus":
            csr_status.append((r, r.status))
        elif k == "CSR":
            csr_status.append((r, r.w))
    D = Domains(d, ext)
    quasi = {s for r in registers_of(m) if "delay_base" in r.name for s in [getattr(r, "storage", None)] if s is not None}
    mr_out = {}
    for sp in d.multiregs:
        for s, _ in d._lhsbits(sp.o):
            mr_out[s] = sp

    def handshake(dst):
        """dst only changes when a synchronised toggle of the other side changes"""
        g = GVN(d)
        obl = []
        cand = []
        dg = D.group(d.sync[dst][0])
        for r in d.sync:
            if D.group(d.sync[r][0]) == dg and r.nbits == 1:
                n = d.define(r)
                while n.op == "sig" and n.ref in d.comb:
                    n = d.define(n.ref)
                if n.op == "sig" and n.ref in mr_out:
                    cand.append((r, n.ref))
        hold = ir.op("==", d.define(dst), ir.sig(dst))
        for r, mo in cand:
            obl = [("hold", ir.op("|", ir.boolean(hold), ir.boolean(ir.op("!=", ir.sig(r), ir.sig(mo)))))]
            if not g.solve(obl, []):
                return mr_out[mo]
            g = GVN(d)
        return None

    def source_holds(src, sp):
        """src only changes together with the toggle behind synchroniser sp, or in the clock before"""
        n = d.expr(sp.i)
        while n.op == "sig" and n.ref in d.comb:
            n = d.define(n.ref)
        if n.op != "sig" or n.ref not in d.sync:
            return False
        t = n.ref
        same = ir.boolean(ir.op("==", d.define(src), ir.sig(src)))
        if not GVN(d).solve([("hold", ir.op("|", same, ir.boolean(ir.op("!=", d.define(t), ir.sig(t)))))], []):
            return True
        # the toggle follows one clock later through a request register q: src changes => q set next
        for q in comb_leaves(d, d.define(t)):
            if q in d.sync and q is not t and q.nbits == 1 and D.group(d.sync[q][0]) == D.group(d.sync[t][0]):
                if not GVN(d).solve([("hold", ir.op("|", same, ir.boolean(d.define(q))))], []) and \
                        not GVN(d).solve([("req", ir.op("|", ir.boolean(ir.op("==", ir.sig(q), ir.const(0))),
                                           ir.boolean(ir.op("!=", d.define(t), ir.sig(t)))))], []):
                    return True
        return False

    n_ok = 0
    # --- registers
    for s, (cd, _) in d.sync.items():
        g = D.group(cd)
        bad = {}
        for l in comb_leaves(d, d.define(s)):
            if l in quasi:
                continue
            for lg, how in D.of(l):
                if lg in (None, g, "lock", "clock"):
                    continue
                bad[l] = (lg, how)
        if bad:
            sp = handshake(s)
            if sp is not None and all(l in d.sync and source_holds(l, sp) for l in bad):
                bad = {}
                c.ok(1, "%s: %s samples across clocks only while its source is held" % (label, ir.name(s)))
        for l, (lg, how) in bad.items():
            c.bad("crossing", "%s<-%s" % (ir.name(s), ir.name(l)), "%s: register %s (clock %s, %s) samples %s of %s (%s, %s) without a synchroniser" % (
                label, ir.name(s), cd, ",".join(d.srcs(s)[:3]), ir.name(l), lg, how, ",".join(d.srcs(l)[:2])))
        n_ok += not bad
    c.ok(n_ok, "%s: %d registers sample only their own or related clocks" % (label, n_ok))
    # --- synchronisers
    status_bits = {}
    for sp in d.multiregs:
        n = d.expr(sp.i)
        w = hooks.SIGSRC.get(sp.duid) or "?"
        ls = comb_leaves(d, n)
        gs = {lg for l in ls for lg, _ in D.of(l) if lg is not None}
        k = len(ls)
        where = "synchroniser at %s (to %s)" % (w, sp.odomain)
        c.req(len(gs) <= 1, "synchroniser", w, "%s: %s combines signals of several clocks" % (label, where))
        nn = n
        while nn.op == "sig" and nn.ref in d.comb:
            nn = d.define(nn.ref)
        reg = nn.op in ("sig", "slice", "fit") or all(D.of(l) and not (l in d.sync) for l in ls)
        c.req(reg or not any(l in d.sync for l in ls), "synchroniser", w, "%s: input of the %s is computed by logic (%s): glitches are sampled" % (
            label, where, ", ".join(ir.name(l) for l in ls[:4])))
        if n.n > 1 and not library(sp):
            outs = {x for x, _ in d._lhsbits(sp.o)}
            users = [s for s in list(d.sync) if outs & set(comb_leaves(d, d.define(s)))]
            st = {s for _, s in csr_status}
            c.req(sp.odomain == "sys" and not users and outs <= closure(d, st), "synchroniser", w,
                  "%s: %d bits cross together at %s and are used by %s" % (label, n.n, where, ", ".join(ir.name(u) for u in users[:3]) or "logic other than a status register"))
    # --- memory ports and vendor primitives
    for bb in d.bbs:
        if bb.kind == "Memory":
            for p, e in bb.ins:
                g = D.group(bb.obj.ports[int(p[1:].split(".")[0])].clock.cd)
                pin(c, label, d, D, g, e, "memory %s pin %s" % (bb.src, p), quasi)
        elif bb.kind == "Instance" and bb.obj.of in CLKPIN:
            g = D.pin_group(bb.obj)
            if g is None:
                continue
            for p, e in bb.ins:
                if p in SKIP and not (p == "D" and bb.obj.of in DATA_D or p == "RST" and bb.obj.of in SERDES):
                    continue
                pin(c, label, d, D, g, e, "%s %s pin %s" % (bb.obj.of, bb.src, p), quasi)
    # --- software registers
    for r, st in csr_status:
        if st not in d.sync and st not in d.comb and st not in d.bbdrv:
            continue
        bad = []
        for l in (comb_leaves(d, ir.sig(st)) if st not in d.sync else [st]):
            for lg, how in D.of(l):
                if lg not in (None, "sys", "lock") and not (how == "input" and lg == "sys"):
                    bad.append((l, lg))
        if bad and len(bad) == 1 and bad[0][0] in d.sync:
            sp = handshake(bad[0][0])
            if sp is not None:                      # a snapshot taken at software's request
                gs = {lg for l in comb_leaves(d, d.expr(sp.i)) for lg, _ in D.of(l)}
                bad = [] if gs == {"sys"} else bad
        # lock and programming-done flags come from asynchronous primitives straight into status registers
        bad = [b for b in bad if b[1] != "async" or b[0] in ext]
        c.req(not bad, "status", r.name, "%s: status register %s is driven by %s outside the system clock" % (label, r.name, ", ".join(ir.name(l) for l, _ in bad[:3])))


def library(sp):
    """created inside Migen/LiteX components (Gray-coded FIFO pointers, handshaken buses)"""
    i = sp.i
    names = [n for n, _ in getattr(i, "backtrace", [])]
    return any(n in ("graycounter", "bussynchronizer", "asyncfifo") for n in names)


def closure(d, sts):
    """signals feeding the given signals combinationally by plain copies"""
    out, work = set(sts), list(sts)
    while work:
        s = work.pop()
        if s in d.comb:
            n = d.define(s)
            for l in ir.leaves(n):
                if l not in out:
                    out.add(l)
                    work.append(l)
    return out


def pin(c, label, d, D, g, e, what, quasi):
    bad = []
    for l in comb_leaves(d, d.expr(e)):
        if l in quasi:
            continue
        for lg, how in D.of(l):
            if lg not in (None, g, "lock", "clock"):
                bad.append(l)
    c.req(not bad, "crossing", what, "%s: %s is driven by %s of another clock" % (label, what, ", ".join("%s (%s)" % (ir.name(l), ",".join(d.srcs(l)[:1])) for l in bad[:3])))


def stream_ext(p, cd):
    return {s: cd for q in (p.cmd, p.wdata, p.rdata) for s in q.flatten()}


def run(c):
    from litevideo.input import HDMIIn
    from litevideo.output import VideoOut
    from litevideo.terminal.core import Terminal
    c.rule("Every leaf of every register, memory pin, primitive pin and status register belongs to the sampling clock's group or passes a synchroniser.")
    quick = c.tier == "quick"
    icfg = [("xc7", True, 32, "ycbcr422", False, True, 2), ("xc7", False, 32, "ycbcr422", True, True, 2), ("xc6", False, 128, "ycbcr422", False, True, 2),
            ("xc6", True, 64, "rgb", False, True, 2), ("xc7", True, None, "ycbcr422", True, False, 2)]
    if not quick:
        icfg += [(dev, h, dw, mode, split, dw != 32, sl) for dev, split in (("xc6", False), ("xc7", False), ("xc7", True)) for h in (False, True)
                 for dw, mode in ((16, "ycbcr422"), (32, "rgb"), (256, "ycbcr422")) for sl in (1, 3)]
    for dev, hdmi, dw, mode, split, edid, slots in icfg:
        label = "HDMIIn(%s%s%s,port=%s,%s,slots=%d%s)" % (dev, ",hdmi" if hdmi else "", ",split" if split else "", dw, mode, slots, "" if edid else ",no edid")
        p, w = hdmi_pads(ddc=edid, hpd=edid, pupd=False), wport(dw) if dw else None
        m = c.elab(label, lambda: HDMIIn(p, w, device=dev, hdmi=hdmi, split_mmcm=split, mode=mode, n_dma_slots=slots))
        if m is not None:
            check(c, label, m, stream_ext(w, "sys") if dw else {}, [p.scl, p.sda, p.hpd_notif] if edid else [])
    H = lambda: hdmi_pads(ddc=False, hpd=False)
    cfg = [("xc7a35t", "rgb", H, False), ("xc6slx45", "rgb", vga_pads, False), ("xc7a35t", "raw", H, False), ("xc6slx45", "raw", H, True), ("xc6slx45", "ycbcr422", H, False),
           ("xc7k325t", "ycbcr422", H, False), ("xc6slx45", "ycbcr422", vga_pads, True)]
    if not quick:
        cfg += [(d, mo, p, e) for d in ("xc6slx9", "xc7a35t", "xc7k325t") for mo in ("rgb", "ycbcr422", "raw") for p in (H, vga_pads) for e in (False, True)
                if not (e and d.startswith("xc7")) and not (mo == "raw" and p is vga_pads)]
    for dev, mode, pads, ext in cfg:
        label = "VideoOut(%s,%s%s)" % (dev, mode, ",external" if ext else "")
        p = rport({"raw": 32, "rgb": 32, "ycbcr422": 16}[mode])
        x = ExternalClocking() if ext else None
        m = c.elab(label, lambda: VideoOut(dev, pads(), p, mode, 512, x))
        if m is not None:
            e = stream_ext(p, "pix")
            if x is not None:
                e.update({x.pll0_pix10x: "ext", x.pll1_pix2x: "ext", x.pll2_pix: "ext"})
            check(c, label, m, e)
    with term.scratch():
        m = c.elab("Terminal()", Terminal)
    if m is not None:
        b = m.bus
        check(c, "Terminal()", m, {s: "sys" for s in (b.adr, b.dat_w, b.cyc, b.stb, b.we)})


MIN_OBLIGATIONS = 1000
