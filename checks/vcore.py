"""Specification of the framebuffer output core (shared by V04 and V05)."""
from migen import *
from migen.genlib.cdc import MultiReg, PulseSynchronizer
from litex.soc.interconnect import stream
from litedram.common import LiteDRAMNativePort
from litedram.frontend.dma import LiteDRAMDMAReader
from .v01 import RasterSpec

PARAMS = [("hres", 12), ("hsync_start", 12), ("hsync_end", 12), ("hscan", 12),
          ("vres", 12), ("vsync_start", 12), ("vsync_end", 12), ("vscan", 12), ("base", 32), ("length", 32)]


class FetchSpec(Module):
    """Reads words base..base+length-1 once per frame; base and length are those programmed when the frame's fetch starts."""
    def __init__(self, port, p, valid, depth, genlock=None, start=0):
        self.taken = Signal()
        sp = self.port = LiteDRAMNativePort("read", port.aw, port.dw, clock_domain=port.cd)
        self.comb += [sp.cmd.ready.eq(port.cmd.ready), sp.rdata.valid.eq(port.rdata.valid),
                      sp.rdata.data.eq(port.rdata.data), sp.rdata.first.eq(port.rdata.first),
                      sp.rdata.last.eq(port.rdata.last)]
        self.submodules.dma = dma = LiteDRAMDMAReader(sp, depth, True)
        sh = log2_int(port.dw // 8)
        base, length = Signal(port.aw), Signal(port.aw)
        k = Signal(port.aw)
        IDLE, READ, WAIT = 0, 1, 2
        st = Signal(2)
        lastw = Signal()
        self.comb += [
            dma.sink.valid.eq(st == READ),
            dma.sink.address.eq(base + k),
            lastw.eq((k == (length - 1)) & (st == READ) & dma.sink.ready),
            self.taken.eq(lastw),
            sp.flush.eq((st == IDLE) & ~valid),
        ]
        sof = Signal()
        self.sync += Case(st, {
            IDLE: [k.eq(start), base.eq(p.base >> sh), length.eq(p.length >> sh), If(valid, st.eq(READ))],
            READ: If(dma.sink.ready, k.eq(k + 1), If(lastw, st.eq(WAIT if genlock is not None else IDLE))),
            WAIT: (If(sof, st.eq(IDLE)) if genlock is not None else []),
            "default": [],
        })
        if genlock is not None:
            v, vr = Signal(), Signal()
            self.sync += [v.eq(genlock.vsync), vr.eq(v), sof.eq(v & ~vr)]
        self.source = dma.source


class CoreSpec(Module):
    def __init__(self, m, port, dw, mode, depth, genlock=None):
        cd = port.cd
        ini = m.initiator
        fifo = stream.AsyncFIFO([(n, w) for n, w in PARAMS], 4)
        self.submodules.fifo = fifo = ClockDomainsRenamer({"write": "sys", "read": cd})(fifo)
        for n, w in PARAMS:
            self.comb += getattr(fifo.sink, n).eq(getattr(ini, n).storage)
        self.comb += fifo.sink.valid.eq(ini.enable.storage)
        p, en = fifo.source, fifo.source.valid
        self.params, self.enabled = p, en
        self.source = s = stream.Endpoint([("hsync", 1), ("vsync", 1), ("de", 1), ("data", dw)])
        out_ready = m.source.ready
        step = Signal()
        accept = Signal()
        hsync, vsync, de, tvalid = Signal(), Signal(), Signal(), Signal()
        if genlock is None:
            ras = ClockDomainsRenamer(cd)(RasterSpec(p, en, step))
            self.submodules.ras = ras
            self.comb += [hsync.eq(ras.hsync), vsync.eq(ras.vsync), de.eq(ras.de), tvalid.eq(en)]
            self.comb += fifo.source.ready.eq(step & ras.last)
        else:
            self.comb += [hsync.eq(genlock.hsync), vsync.eq(genlock.vsync), de.eq(genlock.de),
                          tvalid.eq(genlock.valid)]
        f = FetchSpec(port, p, en, depth, genlock, m.dma.delay_base.storage if genlock is not None else 0)
        self.submodules.fetch = f = ClockDomainsRenamer(cd)(f)
        self.comb += [
            s.valid.eq(tvalid & (f.source.valid | ~de)),
            s.hsync.eq(hsync), s.vsync.eq(vsync), s.de.eq(de), s.data.eq(f.source.data),
            accept.eq(s.valid & out_ready),
            step.eq(accept | ~en),
            f.source.ready.eq(~en | (accept & (de | (mode == "raw")))),
        ]
        self.step = step
        # underflow statistics
        uen, upd = Signal(), Signal()
        self.specials += MultiReg(m.underflow_enable.storage, uen, cd)
        ps = PulseSynchronizer("sys", cd)
        self.submodules += ps
        self.comb += [ps.i.eq(m.underflow_update.re), upd.eq(ps.o)]
        cnt, self.snapshot = Signal(32), Signal(32)
        sync = getattr(self.sync, cd)
        sync += [
            If(uen, If(~s.valid, cnt.eq(cnt + 1))).Else(cnt.eq(0)),
            If(upd, self.snapshot.eq(cnt)),
        ]


def configs(tier):
    r = [("rgb", 32, "pix", 512, 24, False), ("raw", 32, "pix", 512, 24, False), ("ycbcr422", 16, "pix", 512, 24, False),
         ("rgb", 32, "sys", 16, 27, False), ("rgb", 32, "pix", 512, 24, True), ("ycbcr422", 16, "hdmi", 64, 25, True)]
    cds, deps, aws = (("pix", "sys"), (4, 32, 1024), (20, 30)) if tier == "quick" else (("pix", "sys", "hdmi"), (4, 8, 32, 128, 1024, 4096), (16, 24, 30))
    r += [(mo, {"rgb": 32, "raw": 32, "ycbcr422": 16}[mo], cd, dep, aw, g) for mo in ("rgb", "raw", "ycbcr422")
          for cd in cds for dep in deps for aw in aws for g in (False, True)]
    return r


MODE_DW = {"raw": 32, "rgb": 24, "ycbcr422": 16}


def build(c, cfg):
    from litevideo.output.core import VideoOutCore
    from litevideo.output.common import frame_timing_layout
    mode, dw, cd, depth, aw, gl = cfg
    label = "VideoOutCore(%s,%d,%s,depth=%d,aw=%d%s)" % (mode, dw, cd, depth, aw, ",genlock" if gl else "")
    port = LiteDRAMNativePort("read", aw, dw, clock_domain=cd)
    g = stream.Endpoint(frame_timing_layout) if gl else None
    m = c.elab(label, lambda: VideoOutCore(port, mode, depth, genlock_stream=g))
    if m is None:
        return None
    s = CoreSpec(m, port, MODE_DW[mode], mode, depth, g)
    return label, m, s, port, free(m, port, g)


def imp(a, b):
    return ~a | b


def free(m, port, g):
    """the interface inputs of the core"""
    return [port.cmd, port.wdata, port.rdata, port.flush, port.lock, m.source.ready, g, m.get_csrs()]
