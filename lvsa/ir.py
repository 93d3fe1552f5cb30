"""FHDL -> word-level SSA.

Every signal gets exactly one defining node (its combinational value, or the
next value of its register); conditional assignment becomes `ite`, partial
assignment becomes concatenation, last assignment wins.  Node values are exact
integers (n, signed) as in FHDL's own semantics; `fit` truncates/extends at an
assignment."""
from . import hooks
from .hooks import SIGSRC
from migen.fhdl import structure as f
from migen.fhdl.bitcontainer import value_bits_sign
from migen.fhdl.specials import Memory, _MemoryPort, Instance, Tristate, Special
from migen.genlib.cdc import MultiReg
from migen.genlib.resetsync import AsyncResetSynchronizer


class Node:
    __slots__ = ("op", "args", "n", "s", "id", "ref")


_tab = {}
_cnt = [0]


def mk(op, args, n, s, ref=None):
    k = (op, tuple(a.id if isinstance(a, Node) else ("L", a) for a in args), n, s,
         id(ref) if ref is not None else None)
    r = _tab.get(k)
    if r is None:
        r = Node()
        r.op, r.args, r.n, r.s, r.ref = op, tuple(args), n, bool(s), ref
        r.id = _cnt[0]
        _cnt[0] += 1
        _tab[k] = r
    return r


def const(v, n=None, s=False):
    if n is None:
        n = max(1, v.bit_length() + (1 if v < 0 else 0))
        s = v < 0
    v &= (1 << n) - 1
    if s and v >> (n - 1):
        v -= 1 << n
    return mk("const", (v,), n, s)


ZERO, ONE = const(0, 1), const(1, 1)


def sig(s):
    return mk("sig", (), s.nbits, s.signed, s)


def fit(x, n, s):
    s = bool(s)
    if x is None:                # empty slice
        return const(0, n)
    if x.n == n and x.s == s:
        return x
    if x.op == "const":
        return const(x.args[0], n, s)
    if x.op == "fit" and x.n >= n:
        return fit(x.args[0], n, s)
    return mk("fit", (x,), n, s)


_slc = {}


def slc(x, a, b):
    """bits [a,b) of x, unsigned"""
    if a == b:
        return None
    k = (x.id, a, b)
    r = _slc.get(k)
    if r is None:
        r = _slc[k] = _slc_(x, a, b)
    return r


def _slc_(x, a, b):
    if x.op == "const":
        return const(x.args[0] >> a, b - a)
    if a == 0 and b == x.n:
        return fit(x, x.n, False)
    if x.op == "slice":
        o = x.args[1]
        if b <= x.n:
            return slc(x.args[0], o + a, o + b)
    if x.op == "cat":
        o = 0
        for y in x.args:
            if a >= o and b <= o + y.n:
                return slc(y, a - o, b - o)
            o += y.n
        if b <= o:
            parts, o = [], 0
            for y in x.args:
                lo, hi = max(a, o), min(b, o + y.n)
                if lo < hi:
                    parts.append(slc(y, lo - o, hi - o))
                o += y.n
            return cat(parts)
    if x.op == "fit" and b <= x.n and (b <= x.args[0].n):
        return slc(x.args[0], a, b)
    if x.op == "ite" and b <= x.n:
        return ite(x.args[0], slc(x.args[1], a, b), slc(x.args[2], a, b))
    return mk("slice", (x, a, b), b - a, False)


def cat(parts):
    parts = [fit(p, p.n, False) for p in parts if p is not None]
    out = []
    for p in parts:
        if out and out[-1].op == "const" and p.op == "const":
            q = out.pop()
            p = const(q.args[0] | (p.args[0] << q.n), q.n + p.n)
        elif (out and out[-1].op == "slice" and p.op == "slice" and out[-1].args[0] is p.args[0]
              and out[-1].args[2] == p.args[1]):
            q = out.pop()
            p = slc(p.args[0], q.args[1], p.args[2])
        elif out and p.op == "slice" and out[-1].op == "fit" and False:
            pass
        out.append(p)
    if len(out) == 1:
        return out[0]
    return mk("cat", out, sum(p.n for p in out), False)


def ite(c, t, e):
    """c: 1-bit node.  t,e same (n,s)."""
    if t is e:
        return t
    if c.op == "const":
        return t if c.args[0] & 1 else e
    if t.n != e.n or t.s != e.s:
        n, s = bitwise_ns(t, e)
        t, e = fit(t, n, s), fit(e, n, s)
        if t is e:
            return t
    return mk("ite", (c, t, e), t.n, t.s)


def bitwise_ns(a, b):
    if a.s == b.s:
        return max(a.n, b.n), a.s
    if not a.s:
        return max(a.n + 1, b.n), True
    return max(a.n, b.n + 1), True


def boolean(x):
    """x != 0"""
    if x.n == 1:
        return fit(x, 1, False)
    if x.op == "const":
        return ONE if x.args[0] else ZERO
    return mk("bool", (x,), 1, False)


def op(name, *a):
    if all(x.op == "const" for x in a) and name not in ("<<<",):
        v = [x.args[0] for x in a]
        r = _consteval(name, v)
        if r is not None:
            return r
    if name in ("+", "-") and len(a) == 2:
        n, s = bitwise_ns(*a)
        return mk(name, a, n + 1, s or name == "-")
    if name == "-":
        return mk("neg", a, a[0].n + 1, True)
    if name == "+":
        return a[0]
    if name == "*":
        x, y = a
        return mk("*", a, x.n + y.n, x.s or y.s)
    if name in ("&", "|") and a[0].n == a[1].n == 1 and not (a[0].s or a[1].s):
        x, y = a
        if y.op == "const":
            x, y = y, x
        if x.op == "const":
            return y if (x.args[0] == 1) == (name == "&") else x
    if name == "~" and a[0].op == "const":
        x = a[0]
        return const(~x.args[0], x.n if x.s else x.n + 1, True)
    if name in ("&", "|", "^"):
        n, s = bitwise_ns(*a)
        return mk(name, a, n, s)
    if name == "~":
        x = a[0]
        return mk("~", a, x.n if x.s else x.n + 1, True)
    if name in ("<", "<=", ">", ">=", "==", "!="):
        return mk(name, a, 1, False)
    if name == "<<<":
        x, k = a
        if k.op == "const":
            return mk("<<<", a, x.n + k.args[0], x.s)
        assert k.n <= 6, "shift too wide"
        return mk("<<<", a, x.n + (1 << k.n) - 1, x.s)
    if name == ">>>":
        return mk(">>>", a, a[0].n, a[0].s)
    if name == "m":
        return ite(boolean(a[0]), *[fit(x, *bitwise_ns(a[1], a[2])) for x in a[1:]])
    raise TypeError(name)


def _consteval(name, v):
    import operator as o
    if name in ("<", "<=", ">", ">=", "==", "!="):
        g = {"<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge, "==": o.eq, "!=": o.ne}[name]
        return ONE if g(*v) else ZERO
    g = {"+": o.add, "*": o.mul, "&": o.and_, "|": o.or_, "^": o.xor}.get(name)
    if g and len(v) == 2:
        return const(g(*v))
    if name == "-":
        return const(v[0] - v[1]) if len(v) == 2 else const(-v[0])
    return None


class MultiDriver(Exception):
    pass


class BB:
    """An opaque operator: vendor primitive, memory, tristate."""

    def __init__(self, kind, key, ins, outs, src=None):
        self.kind, self.key, self.ins, self.outs, self.src = kind, key, ins, outs, src
        self.obj = None

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.key)


class Design:
    def __init__(self, fragment, lower_multireg=True, fixed=None):
        self.frag = fragment
        self.lower_multireg = lower_multireg
        self.comb = {}       # signal -> [stmts]
        self.sync = {}       # signal -> (cd, [stmts])
        self.bbdrv = {}      # signal -> {bit: (BB, port, portbit)}
        self.bbs = []
        self.conflicts = []  # multi-driver findings
        self._tg = {}
        self._expr = {}
        self._def = {}
        self.multiregs = []
        self.fixed = dict(fixed or {})
        self.case_tests = set()
        self.cds = {cd.name: cd for cd in fragment.clock_domains}
        self._index()
        if self.fixed:
            self._propagate()

    def _propagate(self):
        """specialisation: signals that become constant under the fixed values"""
        while True:
            self._expr, self._def = {}, {}
            new = {}
            for s in self.comb:
                if s not in self.fixed:
                    n = self.define(s)
                    if n.op == "const":
                        new[s] = n.args[0] & ((1 << s.nbits) - 1)
            if not new:
                return
            self.fixed.update(new)

    # ---- statement indexing ---------------------------------------------------
    def targets(self, st):
        k = id(st)
        r = self._tg.get(k)
        if r is None:
            r = (st, self._targets(st))
            self._tg[k] = r
        return r[1]

    def _lhs(self, l, acc):
        if isinstance(l, f.Signal):
            acc.add(l)
        elif isinstance(l, f.Cat):
            for x in l.l:
                self._lhs(x, acc)
        elif isinstance(l, (f._Slice, f._Part)):
            self._lhs(l.value, acc)
        elif isinstance(l, f._ArrayProxy):
            for x in l.choices:
                self._lhs(x, acc)
        elif isinstance(l, (f.ClockSignal, f.ResetSignal)):
            acc.add(self.cdsig(l))
        else:
            raise TypeError("lhs %r" % l)

    def cdsig(self, x):
        cd = self.cds.get(x.cd)
        if cd is None:
            cd = f.ClockDomain(x.cd)
            self.cds[x.cd] = cd
        r = cd.clk if isinstance(x, f.ClockSignal) else cd.rst
        if r is None:
            r = f.Constant(0)
        return r

    def _targets(self, st):
        acc = set()
        if isinstance(st, f._Assign):
            self._lhs(st.l, acc)
        elif isinstance(st, f.If):
            for x in st.t:
                acc |= self.targets(x)
            for x in st.f:
                acc |= self.targets(x)
        elif isinstance(st, f.Case):
            for v in st.cases.values():
                for x in v:
                    acc |= self.targets(x)
        elif isinstance(st, (list, tuple)):
            for x in st:
                acc |= self.targets(x)
        elif isinstance(st, f.Display) or type(st).__name__ in ("Finish",):
            pass
        else:
            raise TypeError("statement %r" % st)
        return acc

    def _flat(self, st, out):
        if isinstance(st, (list, tuple)):
            for x in st:
                self._flat(x, out)
        else:
            out.append(st)
        return out

    def _index(self):
        fr = self.frag
        for st in self._flat(fr.comb, []):
            for s in self.targets(st):
                self.comb.setdefault(s, []).append(st)
        for cd, sts in fr.sync.items():
            for st in self._flat(sts, []):
                for s in self.targets(st):
                    if s in self.sync and self.sync[s][0] != cd:
                        self.conflicts.append((s, "sync:" + self.sync[s][0], "sync:" + cd))
                        continue
                    self.sync.setdefault(s, (cd, []))[1].append(st)
        for s in self.sync:
            if s in self.comb:
                self.conflicts.append((s, "sync:" + self.sync[s][0], "comb"))
        specials = sorted(fr.specials, key=lambda x: x.duid)
        for sp in specials:
            self._special(sp)
        for s in self.bbdrv:
            if s in self.comb or s in self.sync:
                self.conflicts.append((s, "instance", "comb" if s in self.comb else "sync"))

    def _bbout(self, bb, port, expr):
        bits = self._lhsbits(expr)
        bb.outs.append((port, len(bits)))
        for i, (s, b) in enumerate(bits):
            d = self.bbdrv.setdefault(s, {})
            if b in d:
                self.conflicts.append((s, repr(d[b][0]), repr(bb)))
            d[b] = (bb, port, i)

    def _lhsbits(self, l):
        if isinstance(l, f.Signal):
            return [(l, i) for i in range(l.nbits)]
        if isinstance(l, f.Cat):
            return [b for x in l.l for b in self._lhsbits(x)]
        if isinstance(l, f._Slice):
            return self._lhsbits(l.value)[l.start:l.stop]
        if isinstance(l, (f.ClockSignal, f.ResetSignal)):
            return self._lhsbits(self.cdsig(l))
        raise TypeError("instance output %r" % l)

    def _special(self, sp):
        src = SIGSRC.get(sp.duid)
        if isinstance(sp, MultiReg):
            self.multiregs.append(sp)
            if self.lower_multireg:
                regs = []
                w, sg = value_bits_sign(sp.i)
                src_e = sp.i
                for i in range(sp.n):
                    r = f.Signal((w, sg), reset=sp.reset, reset_less=True, name="multireg%d" % i)
                    SIGSRC[r.duid] = src
                    a = r.eq(src_e)
                    a.src = src
                    self._tg[id(a)] = (a, {r})
                    self.sync[r] = (sp.odomain, [a])
                    src_e = r
                a = sp.o.eq(src_e)
                a.src = src
                for s in self.targets(a):
                    self.comb.setdefault(s, []).append(a)
            else:
                bb = BB("MultiReg", (sp.odomain, sp.n), [("i", sp.i)], [], src)
                bb.obj = sp
                self.bbs.append(bb)
                self._bbout(bb, "o", sp.o)
        elif isinstance(sp, Memory):
            bb = BB("Memory", (sp.width, sp.depth, tuple(sp.init or ()), len(sp.ports)), [], [], src)
            bb.obj = sp
            self.bbs.append(bb)
            for i, p in enumerate(sp.ports):
                bb.key += ((p.clock.cd, p.async_read, p.we_granularity, str(p.mode),
                            p.we is None, p.re is None),)
                for nm in ("adr", "we", "dat_w", "re"):
                    e = getattr(p, nm)
                    if e is not None:
                        if nm == "dat_w" and p.we is not None:      # data has no effect while it is not written
                            g = p.we_granularity or len(e)
                            e = e & f.Cat(*[f.Replicate(p.we[j], min(g, len(e) - j * g)) for j in range(len(p.we))])
                        bb.ins.append(("p%d.%s" % (i, nm), e))
                if p.dat_r is not None:
                    self._bbout(bb, "p%d.dat_r" % i, p.dat_r)
        elif isinstance(sp, _MemoryPort):
            pass
        elif isinstance(sp, Instance):
            bb = BB("Instance", (sp.of,) + tuple(sorted((it.name, repr(it.value)) for it in sp.items
                                                 if isinstance(it, Instance.Parameter))), [], [], src)
            bb.obj = sp
            self.bbs.append(bb)
            for it in sp.items:
                if isinstance(it, Instance.Input):
                    bb.ins.append((it.name, it.expr))
                elif isinstance(it, Instance.Output):
                    try:
                        self._bbout(bb, it.name, it.expr)
                    except TypeError:
                        pass
                elif isinstance(it, Instance.InOut):
                    bb.ins.append((it.name, it.expr))
            bb.ins.sort(key=lambda t: t[0])
        elif isinstance(sp, Tristate):
            bb = BB("Tristate", (), [("target", sp.target), ("o", sp.o), ("oe", sp.oe)], [], src)
            bb.obj = sp
            self.bbs.append(bb)
            if sp.i is not None:
                self._bbout(bb, "i", sp.i)
        elif isinstance(sp, AsyncResetSynchronizer):
            bb = BB("AsyncResetSynchronizer", (sp.cd.name,), [("async_reset", sp.async_reset)], [], src)
            bb.obj = sp
            self.bbs.append(bb)
            if sp.cd.rst is not None:
                self._bbout(bb, "rst", sp.cd.rst)
        else:
            bb = BB(type(sp).__name__, (getattr(sp, "clk_domain", None),), [], [], src)
            bb.obj = sp
            self.bbs.append(bb)
            for o, attr, ctx in sp.iter_expressions():
                e = getattr(o, attr)
                if ctx == 1 or str(ctx).endswith("OUTPUT"):
                    pass
            from migen.fhdl.specials import SPECIAL_INPUT, SPECIAL_OUTPUT, SPECIAL_INOUT
            for o, attr, ctx in sp.iter_expressions():
                e = getattr(o, attr)
                if e is None:
                    continue
                if ctx == SPECIAL_OUTPUT:
                    self._bbout(bb, attr, e)
                else:
                    bb.ins.append((attr, e))

    # ---- expressions -----------------------------------------------------------
    def expr(self, e):
        k = id(e)
        r = self._expr.get(k)
        if r is None:
            r = (e, self._lower(e))
            self._expr[k] = r
        return r[1]

    def _lower(self, e, sub=None):
        if isinstance(e, (bool, int)):
            return const(int(e))
        if isinstance(e, f.Constant):
            return const(e.value, e.nbits, e.signed)
        if isinstance(e, f.Signal):
            if e in self.fixed:
                return const(self.fixed[e], e.nbits, e.signed)
            return sig(e)
        if isinstance(e, f._Operator):
            return op(e.op, *[self.expr(x) for x in e.operands])
        if isinstance(e, f._Slice):
            return slc(self.expr(e.value), e.start, e.stop)
        if isinstance(e, f._Part):
            sh = op(">>>", self.expr(e.value), self.expr(e.offset))
            return fit(sh, e.width, False)
        if isinstance(e, f.Cat):
            return cat([fit(self.expr(x), len(x), False) for x in e.l])
        if isinstance(e, f.Replicate):
            x = fit(self.expr(e.v), len(e.v), False)
            return cat([x] * e.n)
        if isinstance(e, f._ArrayProxy):
            key = self.expr(e.key)
            ch = [self.expr(x) for x in e.choices]
            n, s = ch[0].n, ch[0].s
            for c in ch[1:]:
                n, s = bitwise_ns(mk("dummy", (), n, s), c) if (c.n, c.s) != (n, s) else (n, s)
            ch = [fit(c, n, s) for c in ch]
            r = ch[-1]
            for i in range(len(ch) - 2, -1, -1):
                r = ite(op("==", key, const(i)), ch[i], r)
            return r
        if isinstance(e, (f.ClockSignal, f.ResetSignal)):
            x = self.cdsig(e)
            return sig(x) if isinstance(x, f.Signal) else const(0, 1)
        if hasattr(e, "raw_bits"):
            return self.expr(e.raw_bits())
        raise TypeError("expr %r" % e)

    # ---- per-signal definition ---------------------------------------------------
    def kind(self, s):
        if s in self.sync:
            return "reg"
        if s in self.comb:
            return "comb"
        if s in self.bbdrv:
            return "bb"
        return "in"

    def define(self, s):
        """comb value or next-state value of s"""
        r = self._def.get(s)
        if r is None:
            if s in self.sync:
                r = self.run(self.sync[s][1], s, sig(s))
            elif s in self.comb:
                base = const(s.reset.value, s.nbits, s.signed)
                r = self.run(self.comb[s], s, base)
            else:
                return None
            self._def[s] = r
        return r

    def run(self, sts, S, val):
        for st in sts:
            if S not in self.targets(st):
                continue
            if isinstance(st, f._Assign):
                val = self.assign(st.l, self.expr(st.r), S, val)
            elif isinstance(st, f.If):
                c = boolean(fit(self.expr(st.cond), len(st.cond), False))
                t = self.run(st.t, S, val)
                e = self.run(st.f, S, val)
                val = ite(c, t, e)
            elif isinstance(st, f.Case):
                n, s = value_bits_sign(st.test)
                tn = fit(self.expr(st.test), n, s)
                if isinstance(st.test, f.Signal):
                    self.case_tests.add(st.test)
                res = self.run(st.cases["default"], S, val) if "default" in st.cases else val
                for k, v in reversed([kv for kv in st.cases.items() if not isinstance(kv[0], str)]):
                    kv = k.value
                    if s and kv >= 0 and kv >> (n - 1):
                        kv -= 1 << n       # verilog compares the bit pattern
                    res = ite(op("==", tn, const(kv)), self.run(v, S, val), res)
                val = res
            elif isinstance(st, (list, tuple)):
                val = self.run(st, S, val)
        return val

    def cur(self, l, S, val):
        if isinstance(l, f.Signal):
            return val if l is S else sig(l)
        if isinstance(l, f.Cat):
            return cat([fit(self.cur(x, S, val), len(x), False) for x in l.l])
        if isinstance(l, f._Slice):
            return slc(self.cur(l.value, S, val), l.start, l.stop)
        if isinstance(l, f._ArrayProxy):
            key = self.expr(l.key)
            ch = [self.cur(x, S, val) for x in l.choices]
            r = ch[-1]
            for i in range(len(ch) - 2, -1, -1):
                r = ite(op("==", key, const(i)), ch[i], r)
            return r
        raise TypeError("lhs read %r" % l)

    def assign(self, l, rhs, S, val):
        if isinstance(l, (f.ClockSignal, f.ResetSignal)):
            l = self.cdsig(l)
        if isinstance(l, f.Signal):
            return fit(rhs, l.nbits, l.signed) if l is S else val
        if S not in self._lset(l):
            return val
        if isinstance(l, f.Cat):
            o = 0
            for x in l.l:
                val = self.assign(x, slc(fit(rhs, max(rhs.n, o + len(x)), rhs.s), o, o + len(x)), S, val)
                o += len(x)
            return val
        if isinstance(l, f._Slice):
            full = self.cur(l.value, S, val)
            w = len(l.value)
            full = fit(full, w, full.s)
            new = cat([slc(full, 0, l.start), fit(rhs, l.stop - l.start, False), slc(full, l.stop, w)])
            return self.assign(l.value, new, S, val)
        if isinstance(l, f._Part):
            full = self.cur(l.value, S, val)
            w = len(l.value)
            off = self.expr(l.offset)
            res = val
            for i in range(0, w):
                hi = min(w, i + l.width)
                new = cat([slc(full, 0, i), fit(rhs, hi - i, False), slc(full, hi, w)])
                res = ite(op("==", off, const(i)), self.assign(l.value, new, S, val), res)
            return res
        if isinstance(l, f._ArrayProxy):
            key = self.expr(l.key)
            n = len(l.choices)
            res = self.assign(l.choices[-1], rhs, S, val)
            for i in range(n - 2, -1, -1):
                res = ite(op("==", key, const(i)), self.assign(l.choices[i], rhs, S, val), res)
            return res
        raise TypeError("lhs %r" % l)

    def _lset(self, l):
        k = ("l", id(l))
        r = self._tg.get(k)
        if r is None:
            acc = set()
            self._lhs(l, acc)
            r = (l, acc)
            self._tg[k] = r
        return r[1]

    # ---- provenance ----------------------------------------------------------------
    def assigns(self, s):
        out = []

        def walk(sts):
            for st in sts:
                if isinstance(st, (list, tuple)):
                    walk(st)
                elif s in self.targets(st):
                    if isinstance(st, f._Assign):
                        out.append(st)
                    elif isinstance(st, f.If):
                        walk(st.t)
                        walk(st.f)
                    elif isinstance(st, f.Case):
                        for v in st.cases.values():
                            walk(v)
        walk(self.comb.get(s, []))
        if s in self.sync:
            walk(self.sync[s][1])
        return out

    def srcs(self, s):
        r = []
        for a in self.assigns(s):
            w = getattr(a, "src", None)
            if w and w not in r:
                r.append(w)
        if s in self.bbdrv:
            for bb, p, i in self.bbdrv[s].values():
                w = "%s (%s.%s)" % (bb.src, bb.kind, p)
                if w not in r:
                    r.append(w)
        if not r:
            w = SIGSRC.get(s.duid)
            if w:
                r.append(w)
        return r


def name(s):
    n = s.name_override or (s.backtrace[-1][0] if s.backtrace else None)
    pre = [x[0] for x in (s.backtrace or [])[:-1] if x[0]]
    return ".".join([p for p in pre[-2:]] + [n or "sig%d" % s.duid])


def leaves(node, acc=None, seen=None):
    """signals read by a node"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    st = [node]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sig":
            acc.append(x.ref)
        for a in x.args:
            if isinstance(a, Node):
                st.append(a)
    return acc
