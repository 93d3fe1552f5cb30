"""I14: HDMI input composition."""
from functools import reduce
from operator import and_
from lvsa import hooks, ir  # noqa: F401
from lvsa.gvn import GVN
from migen import *
from . import i04, i05
from .common import Delay, sub
from .stubs import hdmi_pads, wport

META = dict(
    title="The HDMI input carries each lane's pixels, aligned with their syncs, to memory",
    statement="In every configuration of HDMIIn, lane n's pads feed lane n's capture, alignment, error counter, decoder and synchroniser input; the "
              "picture given to resolution detection and frame extraction pairs each pixel's red, green, blue (lanes 2, 1, 0) with the data enable "
              "and syncs of the same character, in DVI mode and in HDMI mode, where enable follows the video periods; frames go to the DMA unmodified.",
    over=["inputs", "histories", "configurations"],
    quant="all character streams; both families, DVI/HDMI, memory widths, packing modes, slots, with/without EDID, DMA, split clocking",
    why="The only end-to-end use is on hardware; misalignment between lanes, syncs and data appears in no unit bench.",
    files=["litevideo/input/__init__.py", "litevideo/input/decoding.py", "litevideo/input/analysis.py"],
    mech=[("HDMIIn", "litevideo/input/__init__.py:HDMIIn"), ("TimingDelayChannel", "litevideo/input/__init__.py:TimingDelayChannel")],
    observe=["inputs of resolution detection, frame extraction and DMA inside HDMIIn"],
    technique="value numbering (AWZ) of the composed design against an aligned specification; dependence cones for the pads",
    note="Component behaviour is decided in I01-I13; this property decides their composition.",
)


class Chan:
    """input record of the polarity specification, delayed"""
    def __init__(self, s, rec, n):
        for f in ("d", "c", "de", "raw"):
            x = getattr(rec, f)
            if n:
                dl = Delay(x, n, "pix")
                s.submodules += dl
                x = dl.o
            setattr(self, f, x)


class Shim:
    pass


class Spec(Module):
    def __init__(self, m, hdmi):
        outs = [getattr(m.chansync, "data_out%d" % i) for i in range(3)]
        sh = Shim()
        sh.valid_i = m.chansync.chan_synced
        for i, o in enumerate(outs):
            setattr(sh, "data_in%d" % i, Chan(self, o, 2 if hdmi else 0))
        de = outs[0].de
        if hdmi:
            self.submodules.t = t = i04.Spec(m.chansync.chan_synced, [o.raw for o in outs], outs[0].de, m.decode_terc4.dvimode.storage)
            de = t.de
        self.submodules.p = i05.PolSpec(sh, de)


def rec_eq(a, b):
    return reduce(and_, [x == y for x, y in zip(a.flatten(), b.flatten())])


def lane(m, i, n):
    """component n of lane i; the decoders own no register, so their attribute name is free"""
    if n == "decod" and not hasattr(m, "data0_decod"):
        return [x for _, x in m._submodules if type(x).__name__ == "Decoding"][i]
    return getattr(m, "data%d_%s" % (i, n))


def pad_cone(c, label, m, d, pads):
    allp = {s: n for n in ("data0", "data1", "data2") for s in (getattr(pads, n + "_p"), getattr(pads, n + "_n"))}
    for i in range(3):
        g = GVN(d)
        sigs, _ = g.cone([ir.sig(getattr(m, "data%d_cap" % i).d)])
        got = {allp[s] for s in sigs if s in allp}
        c.req(got == {"data%d" % i}, "dependence", "data%d_cap" % i, "%s: captured data of lane %d depends on pads %s" % (label, i, sorted(got) or "none"),
              "%s: lane %d captures its own pads only" % (label, i))


def check(c, dev, hdmi, dw, mode="ycbcr422", slots=2, edid=True, split=False, depth=512):
    from litevideo.input import HDMIIn
    label = "HDMIIn(%s%s,port=%s,%s,slots=%d%s%s)" % (dev, ",hdmi" if hdmi else "", dw, mode, slots, "" if edid else ",no edid", ",split" if split else "")
    pads = hdmi_pads(ddc=edid)
    kw = dict(device=dev, hdmi=hdmi, mode=mode, n_dma_slots=slots, split_mmcm=split, fifo_depth=depth)
    m = c.elab(label, lambda: HDMIIn(pads, wport(dw) if dw else None, **kw))
    d = m and c.design(label, m)
    if d is None:
        return
    pad_cone(c, label, m, d, pads)
    s = Spec(m, hdmi)
    ob = []
    for i in range(3):
        g = lambda n: lane(m, i, n)
        L = "lane %d " % i
        ob += [(L + "alignment input", g("charsync").raw_data == g("cap").d), (L + "error counter input", g("wer").data == g("charsync").data),
               (L + "decoder input", g("decod").input == g("charsync").data), (L + "decoder valid", g("decod").valid_i == g("charsync").synced),
               (L + "synchroniser input", rec_eq(getattr(m.chansync, "data_in%d" % i), g("decod").output))]
        if dev == "xc6":
            ob.append((L + "serdes strobe", g("cap").serdesstrobe == m.clocking.serdesstrobe))
    v = [lane(m, i, "decod").valid_o for i in range(3)]
    sp, rd = sub(m, "syncpol", "SyncPolarity"), m.resdetection
    ob += [("synchroniser valid", m.chansync.valid_i == (v[0] & v[1] & v[2])),
           ("resolution: valid", rd.valid_i == s.p.valid), ("resolution: enable", rd.de == s.p.de), ("resolution: vsync", rd.vsync == s.p.v),
           ("outputs: hsync", sp.hsync == s.p.h), ("outputs: vsync", sp.vsync == s.p.v), ("outputs: de", sp.de == s.p.de)]
    ob += [("outputs: raw %d" % i, getattr(sp, "c%d" % i) == s.p.raw[i]) for i in range(3)]
    ob += [("outputs: " + n, getattr(sp, n) == getattr(s.p, n)) for n in "rgb"]
    if dw:
        f = m.frame
        ob += [("frame: valid", f.valid_i == s.p.valid), ("frame: enable", f.de == s.p.de), ("frame: vsync", f.vsync == s.p.v)]
        ob += [("frame: " + n, getattr(f, n) == getattr(s.p, n)) for n in "rgb"]
        a, b = f.frame, m.dma.frame
        ob += [("DMA: valid", a.valid == b.valid), ("DMA: ready", a.ready == b.ready), ("DMA: pixels", a.pixels == b.pixels), ("DMA: start of frame", a.sof == b.sof)]
        c.req(m.ev is m.dma.ev, "composition", "ev", label + ": interrupt is not the DMA's")
    # channel synchroniser outputs feed everything behind them; they are cut points of this composition
    outs = [getattr(m.chansync, "data_out%d" % i) for i in range(3)]
    cut = [m.chansync.chan_synced] + [x for o in outs for x in o.flatten()]
    for i in range(3):
        g = lambda n: lane(m, i, n)
        cut += [g("cap").d, g("charsync").data, g("charsync").synced, g("decod").valid_o] + g("decod").output.flatten()
    if dw:
        cut += [m.frame.frame.valid, m.frame.frame.pixels, m.frame.frame.sof, m.dma.frame.ready]
    c.equiv(label, m, s, ob, cut=cut, free=[])


def run(c):
    c.rule("Inside each elaborated HDMIIn the wiring between components and the aligned picture at frame extraction equal the specification.")
    cfg = [("xc7", False, 32, {}), ("xc7", True, 32, {}), ("xc6", False, 128, {}), ("xc6", True, 64, dict(mode="rgb")), ("xc7", True, None, {}),
           ("xc7", False, 16, dict(edid=False, split=True, slots=1)), ("xc6", False, None, dict(edid=False))]
    cfg += [("xc7", h, w, dict(mode=md, slots=sl, split=spl)) for h in (False, True) for w, md in ((16, "ycbcr422"), (32, "rgb"), (256, "ycbcr422"))
            for sl in (1, 3) for spl in (False, True)]
    cfg += [("xc6", h, 32, dict(slots=4, depth=1024)) for h in (False, True)]
    if c.tier != "quick":
        cfg += [(dev, h, w, dict(mode=md, slots=sl, split=spl, edid=ed, depth=dep)) for dev, spl in (("xc6", False), ("xc7", False), ("xc7", True))
                for h in (False, True) for w, md in ((16, "ycbcr422"), (32, "ycbcr422"), (64, "rgb"), (128, "ycbcr422"), (256, "rgb"))
                for sl, ed, dep in ((1, False, 256), (2, True, 1024), (4, True, 512), (5, False, 2048))]
    for dev, hdmi, dw, kw in cfg:
        check(c, dev, hdmi, dw, **kw)


MIN_OBLIGATIONS = 150
