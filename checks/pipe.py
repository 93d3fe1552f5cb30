"""Elastic pipeline rule shared by the converter checks."""
from migen import *
from lvsa import ir
from lvsa.gvn import GVN
from lvsa.structure import fragment
from .common import Delay


def enable_of(c, label, m):
    """every signal congruent to sink.ready: the pipeline enable(s)"""
    d = c.design(label, m)
    if d is None:
        return None
    g = GVN(d)
    for s in list(d.comb) + list(d.sync):
        d.define(s)
    # the cone of every output, so that replicated valid chains are unified
    g.solve([("r", d.expr(m.sink.ready))] + [("o%d" % i, ir.boolean(d.expr(x))) for i, x in enumerate(m.source.flatten())
                                              if x is not m.source.ready])
    r = g.ev(d.expr(m.sink.ready))
    out = []
    for s in d.comb:
        if s.nbits == 1:
            sigs, bbs = g.cone([d.define(s)])
            if all(x in g.regs or x not in d.sync for x in sigs) and not bbs and g.ev(d.expr(s)) == r:
                out.append(s)
    return out


def at(ce, v):
    return {s: v for s in ce}


def elastic(c, label, m, latency, extra=()):
    """The converter is a `latency`-deep pipeline that moves as one: it advances whenever its output is free or
    taken, holds every register otherwise, and carries valid/first/last along with the data."""
    ce = enable_of(c, label, m)
    if not ce:
        return None
    c.rule("Elastic pipeline: the enable is (output free or taken); with the enable at 0 every register's next value is "
           "itself; with the enable at 1 valid/first/last and data are the inputs of exactly `latency` steps before.")
    c.equiv(label, m, None, [("ready when output free or taken",
                              m.sink.ready == Mux(m.source.valid, m.source.ready, 1))], free=[m.sink, m.source.ready] + list(extra))
    # enable = 0: everything holds
    d0 = c.design(label, m, fixed=at(ce, 0))
    g = GVN(d0)
    for s in list(d0.comb) + list(d0.sync):
        d0.define(s)
    dn = c.design(label, m)
    sigs, _ = GVN(dn).cone([dn.expr(x) for x in m.source.flatten() if x is not m.source.ready])
    regs = [s for s in sigs if s in d0.sync]
    for s in sorted(regs, key=lambda s: s.duid):
        nx = g.ev(d0.define(s))
        c.req(nx == g.regbits(s), "holds-when-stalled", "%s.%s" % (label, ir.name(s)),
              "%s: register %s (%s) changes while the pipeline is stalled" % (
                  label, ir.name(s), ", ".join(d0.srcs(s))), "%s: %s holds when stalled" % (label, ir.name(s)))
    # enable = 1: markers
    class Markers(Module):
        def __init__(self):
            v = Delay(m.sink.valid, latency)
            f = Delay(m.sink.valid & m.sink.first, latency)
            l = Delay(m.sink.valid & m.sink.last, latency)
            self.submodules += v, f, l
            self.v, self.f, self.l = v.o, f.o, l.o
    sp = Markers()
    so = m.source
    c.equiv(label, m, sp, [("valid latency", so.valid == sp.v),
                           ("first marker", ~so.valid | (so.first == sp.f)),
                           ("last marker", ~so.valid | (so.last == sp.l))], fixed=at(ce, 1), free=[m.sink, m.source.ready] + list(extra), unroll=True)
    return ce


def delayed(mod, rec, names, n):
    r = []
    for nm in names:
        d = Delay(getattr(rec, nm), n)
        mod.submodules += d
        r.append(d)
    return r


def imp(a, b):
    return ~a | b
