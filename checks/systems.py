"""Complete systems in their documented configurations."""
from lvsa import hooks  # noqa: F401
from migen import *
from itertools import product
from .common import sub
from .stubs import hdmi_pads, vga_pads, rport, wport, ExternalClocking
from . import term
from lvsa.ctx import flat_signals

TERMINAL = {"vga"}


def ports(pads, port):
    return flat_signals(pads) + ([s for q in (port.cmd, port.wdata, port.rdata) for s in q.flatten()] + [port.flush] if port is not None else [])


def inputs(c, full=False, every=1):
    from litevideo.input import HDMIIn
    # devices x HDMI x memory word in full; slots, split clocking, EDID, inverted pairs and FIFO depth rotate through the list
    words = ((None, "ycbcr422"), (16, "ycbcr422"), (32, "rgb"), (32, "ycbcr422"), (64, "rgb"), (128, "ycbcr422"), (256, "rgb"))
    rot = lambda k, *l: l[k % len(l)]
    cfg = [(dev, h, dw, md, rot(k, 2, 1, 3, 4, 5), rot(k, False, True, False) and dev == "xc7", rot(k, True, True, False),
            rot(k, (), ("data1_p",), ("data0_p", "data2_p"), ()), rot(k, 512, 256, 1024))
           for k, (dev, h, (dw, md)) in enumerate(product(("xc6", "xc7"), (False, True), words))]
    if full:
        more = [(dev, h, dw, md, sl, sp, ed, inv, dep)
                for dev, h, (dw, md), sl, sp, ed, inv, dep in product(
                    ("xc6", "xc7"), (False, True), ((32, "ycbcr422"), (64, "rgb"), (256, "ycbcr422"), (512, "rgb")), (1, 2, 3, 4), (False, True),
                    (False, True), ((), ("data0_p", "data2_p")), (512, 1024)) if not (sp and dev == "xc6") and not (dw == 512 and dep == 512)]
        cfg += more[every // 2::every]
    for dev, h, dw, md, sl, sp, ed, inv, dep in cfg:
        label = "HDMIIn(%s%s,port=%s,%s,slots=%d%s%s%s,fifo=%d)" % (dev, ",hdmi" if h else "", dw, md, sl, ",split" if sp else "", "" if ed else ",no edid",
                                                                  ",inverted " + "/".join(inv) if inv else "", dep)
        pads, port = hdmi_pads(ddc=ed, hpd=ed, inverted=inv), wport(dw) if dw else None
        m = c.elab(label, lambda: HDMIIn(pads, port, n_dma_slots=sl, fifo_depth=dep, device=dev,
                                         split_mmcm=sp, mode=md, hdmi=h))
        if m is not None:
            m.lv_pads, m.lv_port = pads, port
            m.lv_outputs = ports(pads, port) + ([m.dma.ev.irq] if dw else flat_signals([getattr(sub(m, "syncpol", "SyncPolarity"), n) for n in ("r", "g", "b", "de", "vsync")]))
            yield label, m


def outputs(c, full=False):
    from litevideo.output import VideoOut
    P = [("hdmi", lambda: hdmi_pads(ddc=False, hpd=False)), ("vga", vga_pads), ("hdmi inverted", lambda: hdmi_pads(ddc=False, hpd=False, inverted=("data1_p",)))]
    for dev, mode, (pn, pads), ext in product(("xc6slx45", "xc7a35t", "xc7k325t") if full else ("xc6slx45", "xc7a35t"), ("rgb", "ycbcr422", "raw"), P, (False, True)):
        if (ext and dev.startswith("xc7")) or (mode == "raw" and pn == "vga"):
            continue
        for depth in (16, 512, 2048) if full else (512,):
            label = "VideoOut(%s,%s,%s%s,fifo=%d)" % (dev, mode, pn, ",external clock" if ext else "", depth)
            p, port = pads(), rport(16 if mode == "ycbcr422" else 32)
            m = c.elab(label, lambda: VideoOut(dev, p, port, mode, depth, ExternalClocking() if ext else None))
            if m is not None:
                m.lv_pads, m.lv_port = p, port
                m.lv_outputs = ports(p, port)
                yield label, m


def cores(c, full=False):
    from litevideo.output.core import VideoOutCore
    from litevideo.output.common import frame_timing_layout
    from litex.soc.interconnect import stream
    for mode, gen, cd in product(("rgb", "ycbcr422", "raw"), (False, True), ("pix", "hdmi_out0_pix")):
        label = "VideoOutCore(%s,%s%s)" % (mode, cd, ",genlock" if gen else "")
        g = stream.Endpoint(frame_timing_layout) if gen else None
        port = rport(16 if mode == "ycbcr422" else 32, cd)
        m = c.elab(label, lambda: VideoOutCore(port, mode=mode, fifo_depth=512, genlock_stream=g))
        if m is not None:
            m.lv_pads, m.lv_port = None, port
            m.lv_outputs = ports(m.source, port)
            yield label, m


def parts(c, full=False):
    from litevideo.csc.rgb2ycbcr import RGB2YCbCr
    from litevideo.csc.ycbcr2rgb import YCbCr2RGB
    from litevideo.csc.ycbcr422to444 import YCbCr422to444
    from litevideo.csc.ycbcr444to422 import YCbCr444to422
    from litevideo.csc.rgb2rgb16f import RGB2RGB16f
    from litevideo.csc.rgb16f2rgb import RGB16f2RGB
    from litevideo.float_arithmetic.floatadd import FloatAdd
    from litevideo.float_arithmetic.floatmult import FloatMult
    from litevideo.output.pattern import ColorBarsPattern, VerticalLinesPattern, DotsPattern
    l = [(k.__name__, k) for k in (RGB2YCbCr, YCbCr2RGB, YCbCr422to444, YCbCr444to422, RGB2RGB16f, RGB16f2RGB, FloatAdd, FloatMult, ColorBarsPattern,
                                   VerticalLinesPattern, DotsPattern)]
    for w in (10, 12):
        l += [("RGB2YCbCr(%d)" % w, lambda w=w: RGB2YCbCr(w, w, 8)), ("YCbCr2RGB(%d)" % w, lambda w=w: YCbCr2RGB(w, w, 8)),
              ("YCbCr422to444(%d)" % w, lambda w=w: YCbCr422to444(w)), ("YCbCr444to422(%d)" % w, lambda w=w: YCbCr444to422(w))]
    for label, k in l:
        m = c.elab(label, k)
        if m is not None:
            yield label, m
    for label, pads in (("Terminal()", None), ("Terminal(pads)", Record(term.PADS, name="pads"))):
        m = term.build(c, label, pads)
        if m is not None:
            yield label, m


def everything(c, full=False):
    """full: every second of the additional input configurations, all of the others"""
    yield from inputs(c, full, every=2)
    for f in (outputs, cores, parts):
        yield from f(c, full)
