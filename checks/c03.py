"""C03: chroma resampling."""
from lvsa import hooks  # noqa: F401
from migen import *
from litex.soc.interconnect import stream
from .common import sub
from .pipe import elastic, at, imp

META = dict(
    title="Chroma resampling pairs neighbouring pixels and keeps stream order",
    statement="4:4:4 to 4:2:2: for each pair of consecutive pixels (pair phase counted from reset or restarted by the datapath's first "
              "input) the outputs are (Y0, floor((Cb0+Cb1)/2)) and (Y1, floor((Cr0+Cr1)/2)), aligned with valid/first/last under any stall. "
              "4:2:2 to 4:4:4: the n-th output has the n-th luma, markers and, for both pixels of a pair, that pair's Cb and Cr; "
              "nothing is lost, duplicated or reordered under any valid/ready schedule.",
    over=["inputs", "schedules"],
    quant="all sample values, all valid/ready schedules, several sample widths",
    why="The bench uses a fixed random sequence with an always-ready pattern and only checks 32 samples; reordering needs particular stalls.",
    files=["litevideo/csc/ycbcr444to422.py", "litevideo/csc/ycbcr422to444.py"],
    mech=[("YCbCr444to422Datapath", "litevideo/csc/ycbcr444to422.py:YCbCr444to422Datapath"),
          ("YCbCr422to444", "litevideo/csc/ycbcr422to444.py:YCbCr422to444")],
    observe=["sink and source streams"],
    technique="value numbering (AWZ) against a pair specification; stall-hold dataflow; LiteX FIFOs as operators on both sides",
    note="For 4:4:4 to 4:2:2 pixels must arrive without gaps inside a pair (the phase counts pipeline steps). LiteX SyncFIFO is trusted.",
)


class DownSpec(Module):
    """second: the sample at the input completes a pair.  The pair's two means leave in the two following steps."""
    def __init__(self, sink, first):
        w = len(sink.y)
        second = Signal()
        self.sync += second.eq(Mux(first, 1, ~second))

        def prev(x, n):
            for _ in range(n):
                t = Signal(len(x))
                self.sync += t.eq(x)
                x = t
            return x
        u, v = Signal(w + 1), Signal(w + 1)       # sums of the latest pair
        self.y, self.c = prev(sink.y, 3), Signal(w)
        self.sync += [
            If(second, u.eq(sink.cb + prev(sink.cb, 1)), v.eq(sink.cr + prev(sink.cr, 1))),
            self.c.eq(Mux(second, v >> 1, u >> 1)),
        ]


class UpSpec(Module):
    def __init__(self, dw, m):
        sink = m.sink
        self.source = s = stream.Endpoint([("y", dw), ("cb", dw), ("cr", dw)])
        f = [stream.SyncFIFO([("data", dw)], 4) for _ in range(3)]
        self.submodules += f
        fy, fb, fr = f
        odd, oddo = Signal(), Signal()
        acc, pop = Signal(), Signal()
        self.ready = Signal()
        self.comb += [
            self.ready.eq(fy.sink.ready & Mux(odd, fr.sink.ready, fb.sink.ready)),
            acc.eq(sink.valid & self.ready),
            fy.sink.valid.eq(acc), fb.sink.valid.eq(acc & ~odd), fr.sink.valid.eq(acc & odd),
            fy.sink.data.eq(sink.y), fb.sink.data.eq(Mux(odd, 0, sink.cb_cr)), fr.sink.data.eq(Mux(odd, sink.cb_cr, 0)),
            fy.sink.first.eq(sink.first), fy.sink.last.eq(sink.last),
            s.valid.eq(fy.source.valid & fb.source.valid & fr.source.valid),
            s.y.eq(fy.source.data), s.cb.eq(fb.source.data), s.cr.eq(fr.source.data),
            s.first.eq(fy.source.first), s.last.eq(fy.source.last),
            pop.eq(s.valid & m.source.ready),
            fy.source.ready.eq(pop), fb.source.ready.eq(pop & oddo), fr.source.ready.eq(pop & oddo),
        ]
        self.sync += [If(acc, odd.eq(~odd)), If(pop, oddo.eq(~oddo))]


def run(c):
    from litevideo.csc.ycbcr444to422 import YCbCr444to422
    from litevideo.csc.ycbcr422to444 import YCbCr422to444
    c.rule("444to422: luma and averaged chroma equal the pair specification at every step.")
    c.rule("422to444: handshakes, luma, chroma and markers equal the pair-FIFO specification.")
    ws = tuple(range(2, 17))
    for w in ws:
        label = "YCbCr444to422(%d)" % w
        m = c.elab(label, lambda: YCbCr444to422(w))
        if m is not None:
            first = sub(m, "datapath", "YCbCr444to422Datapath").first
            ce = elastic(c, label, m, m.latency, [first])
            if ce is not None:
                s = DownSpec(m.sink, first)
                o = m.source
                c.equiv(label, m, s, [("luma", o.y == s.y), ("chroma", o.cb_cr == s.c)],
                        fixed=at(ce, 1), free=[m.sink, m.source.ready, first], unroll=True)
        label = "YCbCr422to444(%d)" % w
        m = c.elab(label, lambda: YCbCr422to444(w))
        if m is None:
            continue
        s = ResetInserter()(UpSpec(w, m))
        s.comb += s.reset.eq(m.reset)
        a, b = m.source, s.source
        v = b.valid
        c.equiv(label, m, s, [
            ("accepts", m.sink.ready == s.ready), ("valid", a.valid == v),
            ("y", imp(v, a.y == b.y)), ("cb", imp(v, a.cb == b.cb)), ("cr", imp(v, a.cr == b.cr)),
            ("first", imp(v, a.first == b.first)), ("last", imp(v, a.last == b.last)),
        ], free=[m.sink.valid, m.sink.first, m.sink.last, m.sink.payload, m.source.ready, m.reset])


MIN_OBLIGATIONS = 60
