#!/opt/venv/bin/python
"""Positive and negative controls of the analysis engine (run as setup_cmd)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lvsa import hooks, ir
from lvsa.gvn import GVN
from migen import *


class Cnt(Module):
    def __init__(self, en, n=5, step=1):
        self.q = Signal(n)
        self.sync += If(en, self.q.eq(self.q + step))


def fails(step):
    en = Signal()
    a, b = Cnt(en), Cnt(en, step=step)
    d = ir.Design(a.get_fragment() + b.get_fragment())
    return GVN(d).solve([("eq", d.expr(a.q == b.q))])


class Fsm(Module):
    def __init__(self, i, order, late=False):
        self.o = Signal()
        f = self.submodules.f = FSM(reset_state="A")
        for st in order:
            if st == "A":
                f.act("A", If(i, NextState("B")))
            if st == "B":
                f.act("B", If(~i, NextState("C")))
            if st == "C":
                f.act("C", self.o.eq(1), If(i, NextState("B" if late else "A")))


def fsmfails(order, late):
    i = Signal()
    a, b = Fsm(i, "ABC"), Fsm(i, order, late)
    d = ir.Design(a.get_fragment() + b.get_fragment())
    return GVN(d).solve([("eq", d.expr(a.o == b.o))])


class Shift(Module):
    """n clocks of delay, as separate registers or as one shift register (tap: wrong when not n-1)"""
    def __init__(self, i, ce, n, grouped, tap=None, rotate=False):
        self.o = Signal()
        if grouped:
            q, nxt = Signal(n), Signal(n)
            self.comb += nxt.eq(Cat(i ^ q[-1] if rotate else i, q))
            self.sync += If(ce, q.eq(nxt))
            self.comb += self.o.eq(q[n - 1 if tap is None else tap])
        else:
            x = i
            for k in range(n):
                y = Signal()
                self.sync += If(ce, y.eq(x))
                x = y
            self.comb += self.o.eq(x)


def shiftfails(n=5, **kw):
    i, ce = Signal(), Signal()
    a, b = Shift(i, ce, n, False), Shift(i, ce, n, True, **kw)
    d = ir.Design(a.get_fragment() + b.get_fragment(), fixed={ce: 1})
    g = GVN(d, unroll=True)
    return g.solve([("eq", d.expr(a.o == b.o))])


assert not shiftfails(), "control: a shift register is a delay line"
assert shiftfails(tap=3), "control: a shorter delay must be told apart"
assert shiftfails(rotate=True), "control: a feedback shift register is not a delay line"
assert not fails(1), "control: equal counters must be congruent"
assert fails(2), "control: different counters must be told apart"
assert not fsmfails("CBA", False), "control: state encoding must not matter"
assert fsmfails("CBA", True), "control: different transition must be told apart"
print("selftest ok")
