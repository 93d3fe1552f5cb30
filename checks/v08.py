"""V08: video output composition."""
from lvsa import hooks, ir  # noqa: F401
from migen import *
from . import c02, c03
from .common import Delay
from .stubs import hdmi_pads, vga_pads, rport, ExternalClocking

META = dict(
    title="VideoOut hands the driver each pixel's colour together with its own timing",
    statement="In every configuration of VideoOut the driver receives the core's stream: raw and rgb modes pass the three components, syncs and "
              "data enable of the same position in the same clock under the driver's flow control; ycbcr422 mode converts each active line to RGB "
              "starting a new chroma pair at its first pixel, and delays syncs and data enable by exactly the conversion's latency, so that the first "
              "enabled clock carries the line's first pixel and the last its last.",
    over=["inputs", "histories", "configurations"],
    quant="all timings, line lengths and pixel values; three modes, both families, HDMI and VGA pads, internal/external clocking, FIFO depths",
    why="No bench covers VideoOut; an off-by-one between pixels and their enable needs the composed pipeline.",
    files=["litevideo/output/__init__.py", "litevideo/output/driver.py"],
    mech=[("VideoOut", "litevideo/output/__init__.py:VideoOut"), ("TimingDelay", "litevideo/output/__init__.py:TimingDelay")],
    observe=["driver sink inside VideoOut"],
    technique="retimed value numbering (AWZ) of the composed pipeline against resampling + conversion + delay specifications",
    note="Conversion latency: one clock per unbuffered LiteX FIFO, one for the second chroma sample, four conversion stages; no underflow inside a line.",
)

UP_LATENCY, CSC_LATENCY = 2, 4


class Shim:
    pass


class Spec422(Module):
    """k: clocks between the core's output and the resampler's input"""
    def __init__(self, src, k):
        D = lambda x, n: self.add(Delay(x, n))
        rise = Signal()
        self.comb += rise.eq(src.de & ~D(src.de, 1))
        up = Shim()
        up.sink, up.source = Shim(), Shim()
        up.source.ready = C(1, 1)
        up.sink.valid, up.sink.first, up.sink.last = D(src.valid, k), C(0, 1), C(0, 1)
        up.sink.y, up.sink.cb_cr = D(src.data, k)[:8], D(src.data, k)[8:16]
        u = ResetInserter()(c03.UpSpec(8, up))
        self.submodules += u
        # the resampler restarts in the clock before the line's first pixel arrives
        self.comb += u.reset.eq(D(rise, k - 1))
        rgb = c02.Spec(u.source, CSC_LATENCY, 8, 8)
        self.submodules += rgb
        self.r, self.g, self.b = rgb.r, rgb.g, rgb.b
        L = k + UP_LATENCY + CSC_LATENCY
        self.de, self.hsync, self.vsync = [D(getattr(src, n), L) for n in ("de", "hsync", "vsync")]

    def add(self, d):
        self.submodules += d
        return d.o


def check(c, dev, mode, pads, kind, ext=False, depth=512):
    from litevideo.output import VideoOut
    label = "VideoOut(%s,%s,%s%s,depth=%d)" % (dev, mode, kind, ",external clock" if ext else "", depth)
    dw = {"raw": 32, "rgb": 32, "ycbcr422": 16}[mode]
    mk = lambda: VideoOut(dev, pads, rport(dw), mode, depth, ExternalClocking() if ext else None)
    m = c.elab(label, mk)
    if m is None:
        return
    src, k = m.core.source, m.driver.sink
    cut = [src.valid, src.de, src.hsync, src.vsync, src.data, src.first, src.last]
    if mode != "ycbcr422":
        w = 10 if mode == "raw" else 8
        names = ("c0", "c1", "c2") if mode == "raw" else ("r", "g", "b")
        c.equiv(label, m, None, [(n, getattr(k, n) == getattr(src, n)) for n in ("de", "hsync", "vsync", "valid")] + [
            ("flow control", src.ready == k.ready), ("never stalls", k.ready == 1)] + [
            (n, getattr(k, n)[:w] == src.data[i * w:(i + 1) * w]) for i, n in enumerate(names)], cut=cut, free=[])
        return
    for i, n in enumerate((1, 2, 3)):
        s = ClockDomainsRenamer("pix")(Spec422(src, n))
        t = [("de", k.de == s.de), ("hsync", k.hsync == s.hsync), ("vsync", k.vsync == s.vsync), ("never stalls", src.ready == 1)]
        # the pixel path decides k; timing must agree with it
        if c.equiv(label, m, s, [("red", k.r == s.r)], cut=cut, free=[], unroll=True, quiet=True):
            break
    else:
        s = ClockDomainsRenamer("pix")(Spec422(src, 1))
        t = []
    for nm in "rgb":
        c.equiv(label, m, s, [(nm, getattr(k, nm) == getattr(s, nm))], cut=cut, free=[], unroll=True)
    for ob in t:
        c.equiv(label, m, s, [ob], cut=cut, free=[], unroll=True)


def run(c):
    c.rule("With the core's stream as input, the driver's sink equals the specification of its mode; timing is delayed by the data path's latency.")
    H = lambda: hdmi_pads(ddc=False, hpd=False)
    cfg = [("xc7a35t", "rgb", H, "hdmi"), ("xc6slx45", "rgb", vga_pads, "vga"), ("xc7a35t", "raw", H, "hdmi"), ("xc6slx45", "raw", H, "hdmi", True),
           ("xc7a35t", "ycbcr422", H, "hdmi"), ("xc6slx45", "ycbcr422", H, "hdmi", True, 64)]
    deps = (16, 1024) if c.tier == "quick" else (4, 16, 64, 256, 1024, 4096)
    cfg += [(d, mo, p, n, e, dep) for d in ("xc6slx9", "xc7k325t") for mo in ("rgb", "ycbcr422") for p, n in ((H, "hdmi"), (vga_pads, "vga"))
            for e in (False, True) if not (e and d.startswith("xc7")) for dep in deps]
    if c.tier != "quick":
        cfg += [(d, "raw", H, "hdmi", False, dep) for d in ("xc6slx9", "xc6slx45", "xc7a35t", "xc7k325t", "xc7z020") for dep in deps]
    for dev, mode, p, *r in cfg:
        check(c, dev, mode, p(), *r)


MIN_OBLIGATIONS = 40
