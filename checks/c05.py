"""C05: half-float arithmetic."""
from lvsa import hooks  # noqa: F401
from migen import *
from .pipe import elastic, at, delayed, imp

META = dict(
    title="Half-float adder and multiplier are correct for non-negative finite operands",
    statement="For non-negative finite half floats, including zero and subnormals, whose result does not overflow: the multiplier returns "
              "the exact product truncated to half precision, the adder the sum of the larger-exponent operand and the truncated aligned other "
              "operand, truncated to half precision. Operand pairs are never mixed, results keep order and markers, under any stall.",
    over=["inputs", "schedules"],
    quant="all pairs of non-negative finite half floats, every sequence of pairs, all stall schedules",
    why="The benches feed one constant pair five times and assert nothing: mixing of consecutive operands, zeros and subnormals are never seen.",
    files=["litevideo/float_arithmetic/floatadd.py", "litevideo/float_arithmetic/floatmult.py", "litevideo/float_arithmetic/common.py"],
    mech=[("FloatAddDatapath", "litevideo/float_arithmetic/floatadd.py:FloatAddDatapath"),
          ("FloatMultDatapath", "litevideo/float_arithmetic/floatmult.py:FloatMultDatapath"),
          ("LeadOne", "litevideo/float_arithmetic/common.py:LeadOne")],
    observe=["sink and source streams"],
    technique="value numbering: retimed datapath in canonical (BDD) normal form, integer product as an opaque operator; stall-hold dataflow",
    note="Signs, infinities, NaN and overflow are outside the statement (documented as work in progress in /repo).",
)


def unpack(m, x):
    mant, e = Signal(11), Signal(5)
    m.comb += If(x[10:15] == 0, mant.eq(x[:10]), e.eq(1)).Else(mant.eq(1024 + x[:10]), e.eq(x[10:15]))
    return mant, e


def leading_zeros(m, s):
    n = len(s)
    z = Signal(max=n + 1)
    m.comb += z.eq(n)
    for k in range(n):
        m.comb += If(s[k], z.eq(n - 1 - k))
    return z


def pack(m, s, e, point, dom):
    """half float of s * 2^(e-15-10) / 2^point, truncated; s has 11+point bits or one more"""
    n = len(s)
    z = leading_zeros(m, s)
    be = Signal((9, True))          # biased exponent of the leading one
    o = Signal(16)
    norm, sub = Signal(n), Signal(n + 64)
    bias = n - 11 - point           # leading one at the top bit -> exponent e + bias
    k = Signal((9, True))           # subnormal: units of 2^-24
    m.comb += [
        be.eq(e + bias - z),
        norm.eq(s << z),
        k.eq(e - 1 - point + 40),
        sub.eq((s << k[:6]) >> 40),
        If(s == 0, o.eq(0)).Elif(be >= 1, o.eq(Cat(norm[n - 11:n - 1], be[:5]))).Else(o.eq(sub[:10])),
        dom.eq(be <= 30),
    ]
    return o


class MulSpec(Module):
    def __init__(self, sink, lat):
        a, b = [d.o for d in delayed(self, sink, ["in1", "in2"], lat)]
        (ma, ea), (mb, eb) = unpack(self, a), unpack(self, b)
        p, e = Signal(22), Signal((8, True))
        nov = Signal()
        self.comb += [p.eq(ma*mb), e.eq(ea + eb - 15)]
        r = pack(self, p, e, 10, nov)
        self.o = Signal(16)
        zero = (a[:15] == 0) | (b[:15] == 0)
        self.comb += self.o.eq(Mux(zero, 0, r))
        self.dom = (a[15] == 0) & (b[15] == 0) & (a[10:15] != 31) & (b[10:15] != 31) & (zero | ((p != 0) & nov))


class AddSpec(Module):
    def __init__(self, sink, lat):
        a, b = [d.o for d in delayed(self, sink, ["in1", "in2"], lat)]
        (ma, ea), (mb, eb) = unpack(self, a), unpack(self, b)
        s, e = Signal(12), Signal(6)
        nov = Signal()
        self.comb += If(ea >= eb, e.eq(ea), s.eq(ma + (mb >> (ea - eb)[:5]))).Else(e.eq(eb), s.eq(mb + (ma >> (eb - ea)[:5])))
        self.o = pack(self, s, e, 0, nov)
        self.dom = (a[15] == 0) & (b[15] == 0) & (a[10:15] != 31) & (b[10:15] != 31) & nov


def run(c):
    from litevideo.float_arithmetic.floatadd import FloatAdd
    from litevideo.float_arithmetic.floatmult import FloatMult
    c.rule("The retimed result equals the format-level definition of the truncated product / sum for every operand pair.")
    for label, cl, sp in (("FloatMult", FloatMult, MulSpec), ("FloatAdd", FloatAdd, AddSpec)):
        m = c.elab(label, cl)
        if m is None:
            continue
        ce = elastic(c, label, m, m.latency)
        if ce is None:
            continue
        s = sp(m.sink, m.latency)
        c.equiv(label, m, s, [("result", imp(s.dom, m.source.out == s.o))], fixed=at(ce, 1), free=[m.sink, m.source.ready], unroll=True)


MIN_OBLIGATIONS = 30
