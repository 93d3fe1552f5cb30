"""Global value numbering over the product of an implementation and a
specification, by optimistic partition refinement (Alpern, Wegman, Zadeck).

State elements (register bits, one-hot indicators of enumerated state registers,
opaque operators such as memories and vendor primitives) start in the coarsest
partition compatible with their reset value and clock domain, and classes are split
until members of a class have the same next-value normal form *given* that members of
every class are equal.  The fixpoint is an inductive congruence.  An obligation is a
1-bit expression over current values; it is discharged when its normal form is the
constant 1 under the congruence."""
from .bdd import BDD, BDDLimit
from migen.fhdl import structure as f
from . import hooks, ir
from .ir import Node


class CombLoop(Exception):
    def __init__(self, sigs):
        Exception.__init__(self, "combinational loop through " + ", ".join(ir.name(s) for s in sigs))
        self.sigs = sigs


def subst(n, s, memo):
    """n with register s replaced by 0 (its normal form does not depend on it)"""
    r = memo.get(n.id)
    if r is None:
        if n.op == "sig":
            r = ir.const(0, n.n, n.s) if n.ref is s else n
        elif not any(isinstance(a, Node) for a in n.args):
            r = n
        else:
            r = ir.mk(n.op, [subst(a, s, memo) if isinstance(a, Node) else a for a in n.args], n.n, n.s, n.ref)
        memo[n.id] = r
    return r


class GVN:
    def __init__(self, design, enum="case", use_index=True, bdd=None, unroll=False, inv=False, const=False, mix=False):
        self.mix = mix          # a value indicator may be congruent to a flag
        self.d = design
        self.b = bdd or BDD()
        self.enum_mode = enum
        self.inv = inv            # use value-set invariants of small registers
        self.const_phase = const  # find registers that never leave their reset value first
        self.const = set()
        self.use_index = use_index
        self.uid = {}
        self.level_name = {}
        self.opq = {}
        self.opq_n = 0
        self.enum_cache = {}
        self.rep = {}        # element -> representative element
        self.val = {}
        self.stack = []
        self.elems = None
        self.rounds = 0
        self.split_round = {}
        self.domalias = {}
        self.unroll = unroll
        self.ff = set()           # feed-forward registers, replaced by delayed values
        self.holds = []
        self.redef = {}
        self.shift_ = 0
        self._cl = {}
        self.fixed = {}           # signal -> constant value (case split)
        self.narrow = False       # refutation only: middle bits of wide words held at their reset value
        # clocks and resets are inputs of the analysed logic, whatever generates them
        self.cut = set()
        for cd in design.cds.values():
            self.cut.add(cd.clk)
            if cd.rst is not None:
                self.cut.add(cd.rst)

    # ------------------------------------------------------------ variables
    def level(self, key, bit):
        k = (key, bit, self.shift_)
        u = self.uid.get(k)
        if u is None:
            u = len(self.uid)
            self.uid[k] = u
            self.level_name[u] = k
            for m in self._cl.get((key, bit), ()):
                self.level(*m)
        return u

    def var(self, key, bit):
        return self.b.var(self.level(key, bit))

    def enum(self, s):
        """set of values of an enumerated register, or None"""
        if s in self.enum_cache:
            return self.enum_cache[s]
        r = None
        if self.enum_mode != "none" and (self.enum_mode in ("all", "small") or s in self.d.case_tests):
            v = self.values(self.d.define(s), s, {})
            if v is None and self.enum_mode == "small" and 1 < s.nbits <= 4:
                v = self.reach(s) or set(range(1 << s.nbits))
            if v is not None:
                v = v | {s.reset.value & ((1 << s.nbits) - 1)}
                if 2 <= len(v) <= 24:
                    r = sorted(v)
        self.enum_cache[s] = r
        return r

    def reach(self, s):
        """value set of a small register: least set containing the reset value and closed under its own transition
        function with everything else unconstrained (None if it is everything)"""
        cache = self.d.__dict__.setdefault("_reach", {})
        if s in cache:
            return cache[s]
        cache[s] = None
        if not 1 < s.nbits <= 4 or s in self.cut:
            return None
        g = self.d.__dict__.get("_reach_gvn")
        if g is None:
            g = self.d._reach_gvn = GVN(self.d, enum="none", use_index=False)
            g.b.limit = 400000
        try:
            nx = g.ev(self.d.define(s))
            b = g.b
            own = [g.var(s, i) for i in range(s.nbits)]
            to = [b.v_eq(nx, b.v_const(w, s.nbits)) for w in range(1 << s.nbits)]
            V = {s.reset.value & ((1 << s.nbits) - 1)}
            work = list(V)
            while work:
                v = work.pop()
                # register bits are stored relative to the reset value
                at = b.v_eq(own, b.v_const(v ^ (s.reset.value & ((1 << s.nbits) - 1)), s.nbits))
                for w in range(1 << s.nbits):
                    if w not in V and b.and_(at, to[w]) != 0:
                        V.add(w)
                        work.append(w)
            if len(V) < 1 << s.nbits:
                cache[s] = V
        except (BDDLimit, CombLoop):
            self.d._reach_gvn = None
        return cache[s]

    def values(self, n, s, memo):
        if n.id in memo:
            return memo[n.id]
        memo[n.id] = set() if n.op == "sig" and n.ref in self.d.sync else None
        r = None
        if n.op == "const":
            r = {n.args[0] & ((1 << s.nbits) - 1)}
        elif n.op == "ite":
            a = self.values(n.args[1], s, memo)
            b = self.values(n.args[2], s, memo)
            r = None if a is None or b is None else a | b
        elif n.op == "sig":
            if n.ref is s:
                r = set()
            elif n.ref in self.d.comb and n.ref.nbits == s.nbits:
                r = self.values(self.d.define(n.ref), s, memo)
            elif n.ref in self.d.sync and n.ref.nbits == s.nbits and n.ref not in self.cut:
                # copy of another register: everything that one can hold (least fixpoint over the copy graph)
                if n.ref in memo:
                    r = memo[n.ref]
                else:
                    memo[n.ref] = set()
                    r = self.values(self.d.define(n.ref), s, memo)
                    if r is not None:
                        r = r | {n.ref.reset.value & ((1 << s.nbits) - 1)}
                    memo[n.ref] = r
        elif n.op == "fit":
            if n.args[0].n <= n.n and not n.args[0].s:
                r = self.values(n.args[0], s, memo)
        memo[n.id] = r
        return r

    # ------------------------------------------------------------ variable order
    def order(self, nodes, regs, bbs):
        """Depth-first, bit-interleaved static variable order."""
        self._seen = set()
        self._clusters(nodes, regs, bbs)
        for n in nodes:
            for i in range(n.n):
                self._ord(n, i)
        for s in regs:
            for i in range(s.nbits):
                self._ordsig(s, i)
            n = self.d.define(s)
            for i in range(n.n):
                self._ord(n, i)
        for bb in bbs:
            for p, e in bb.ins:
                try:
                    n = self.d.expr(e)
                except TypeError:
                    continue
                for i in range(n.n):
                    self._ord(n, i)

    ARITH = ("+", "-", "neg", "==", "!=", "<", "<=", ">", ">=")

    def _clusters(self, nodes, regs, bbs):
        """bits meeting at the same position of an arithmetic operator are kept adjacent"""
        d = self.d
        par, ids, elems = [], {}, []

        def find(l):
            x = ids.get(l)
            if x is None:
                x = ids[l] = len(par)
                par.append(x)
                elems.append(l)
            return root(x)

        def root(x):
            while par[x] != x:
                par[x] = par[par[x]]
                x = par[x]
            return x
        seen = set()
        work = list(nodes) + [d.define(s) for s in regs]
        for bb in bbs:
            for p, e in bb.ins:
                try:
                    work.append(d.expr(e))
                except TypeError:
                    pass
        memo = {}
        while work:
            n = work.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            for x in n.args:
                if isinstance(x, Node):
                    work.append(x)
            if n.op == "sig":
                s = n.ref
                if s in d.comb and s not in self.cut:
                    work.append(d.define(s))
                elif s in self.ff:
                    work.append(d.define(s))
                continue
            if n.op in self.ARITH:
                ops = [x for x in n.args if isinstance(x, Node)]
                for j in range(max(x.n for x in ops)):
                    f0 = None
                    for x in ops:
                        for l in self._bitleaves(x, j, memo):
                            if f0 is None:
                                f0 = find(l)
                            else:
                                f0 = root(f0)
                                par[find(l)] = f0
        self._cl = {}
        grp = {}
        for i, x in enumerate(elems):
            grp.setdefault(root(i), []).append(x)
        for g in grp.values():
            if 1 < len(g) <= 40:
                for x in g:
                    self._cl[x] = g

    def _bitleaves(self, n, j, memo):
        if j >= n.n:
            return ()
        k = (n.id, j)
        r = memo.get(k)
        if r is None:
            memo[k] = ()
            r = memo[k] = tuple(self._bitleaves_(n, j, memo))
            if len(r) > 12:
                r = memo[k] = r[:12]
        return r

    def _bitleaves_(self, n, j, memo):
        o, a = n.op, n.args
        d = self.d
        if o == "sig":
            s = n.ref
            if s in self.cut:
                return [(s, j)]
            if s in d.sync and s not in self.ff:
                return [(s, j)] if self.enum(s) is None else []
            if s in d.comb or s in self.ff:
                return self._bitleaves(d.define(s), j, memo)
            if s in d.bbdrv:
                t = d.bbdrv[s].get(j)
                return [((t[0], t[1]), t[2])] if t else []
            return [(s, j)]
        if o == "ite":
            return self._bitleaves(a[1], j, memo) + self._bitleaves(a[2], j, memo)
        if o in ("fit", "~"):
            return self._bitleaves(a[0], j, memo)
        if o == "slice":
            return self._bitleaves(a[0], j + a[1], memo)
        if o == "cat":
            for p in a:
                if j < p.n:
                    return self._bitleaves(p, j, memo)
                j -= p.n
        if o in ("+", "-", "neg", "&", "|", "^"):
            return tuple(l for x in a for l in self._bitleaves(x, j, memo))
        return ()

    def _ordsig(self, s, i):
        d = self.d
        if s in self.ff and s not in self.cut:
            self.shift_ += 1
            self._ord(d.define(s), i)
            self.shift_ -= 1
        elif s in self.cut:
            self.level(s, i)
        elif s in d.sync:
            vs = self.enum(s)
            if vs is None:
                self.level(s, i)
            elif len(vs) == 2:
                self.level(s, 0)
            else:
                for v in vs:
                    self.level(s, ("k", v))
        elif s in d.comb:
            self._ord(d.define(s), i)
        elif s in d.bbdrv:
            if i in d.bbdrv[s]:
                bb, port, pb = d.bbdrv[s][i]
                self.level((bb, port), pb)
        else:
            self.level(s, i)

    def _ord(self, n, i):
        if i >= n.n:
            if not n.s:
                return
            i = n.n - 1
        k = (n.id, i, self.shift_)
        if k in self._seen:
            return
        self._seen.add(k)
        o, a = n.op, n.args
        if o == "const":
            return
        if o == "sig":
            return self._ordsig(n.ref, i)
        if o == "ite":
            self._ord(a[0], 0)
            self._ord(a[1], i)
            self._ord(a[2], i)
        elif o == "fit" or o == "~":
            self._ord(a[0], i)
        elif o == "slice":
            self._ord(a[0], a[1] + i)
        elif o == "cat":
            for p in a:
                if i < p.n:
                    return self._ord(p, i)
                i -= p.n
        elif o in ("&", "|", "^"):
            self._ord(a[0], i)
            self._ord(a[1], i)
        elif o in ("+", "-", "neg"):
            for j in range(i + 1):
                for x in a:
                    self._ord(x, j)
        elif o == ">>>" and a[1].op == "const":
            self._ord(a[0], i + a[1].args[0])
        else:
            xs = [x for x in a if isinstance(x, Node)]
            if o in ("<<<", ">>>"):
                xs = xs[::-1]
                for x in xs:
                    for j in range(x.n):
                        self._ord(x, j)
                return
            for j in range(max(x.n for x in xs)):
                for x in xs:
                    self._ord(x, j)

    # ------------------------------------------------------------ evaluation
    def regbits(self, s):
        vs = self.enum(s)
        if vs is None:
            out = []
            for i in range(s.nbits):
                e = (s, i)
                # a class variable stands for "differs from its reset value", so that a register and its
                # complement (an inverted encoding) can be congruent
                x = 0 if self.thin(s, i) else self.elvar(self.rep.get(e, e))
                out.append(self.b.not_(x) if (s.reset.value >> i) & 1 else x)
            return out
        if len(vs) == 2:
            x = self.elvar(self.rep.get((s, 0), (s, 0)))
            a = s.reset.value & ((1 << s.nbits) - 1)
            o = vs[0] + vs[1] - a
            return [(a >> i) & 1 if ((a ^ o) >> i) & 1 == 0 else x if (o >> i) & 1 else self.b.not_(x)
                    for i in range(s.nbits)]
        bits = [0] * s.nbits
        for v in vs:
            e = (s, ("k", v))
            x = self.elvar(self.rep.get(e, e))
            for i in range(s.nbits):
                if (v >> i) & 1:
                    bits[i] = self.b.or_(bits[i], x)
        return bits

    def elvar(self, e):
        if e in self.const:
            return 0            # elements are stored relative to the reset value
        return self.var(e[0], e[1])

    def sigval(self, s):
        v = self.val.get((s, self.shift_))
        if v is not None:
            return v
        d = self.d
        if s in self.fixed:
            v = self.b.v_const(self.fixed[s], s.nbits)
        elif s in self.cut:
            v = [0 if self.thin(s, i) else self.var(s, i) for i in range(s.nbits)]
        elif s in self.ff:
            self.shift_ += 1
            st, self.stack = self.stack, []
            v = self.ev(self.redef.get(s) or d.define(s))
            self.stack = st
            self.shift_ -= 1
        elif s in d.sync:
            v = self.regbits(s)
        elif s in d.comb:
            if s in self.stack:
                raise CombLoop(self.stack[self.stack.index(s):])
            self.stack.append(s)
            v = self.ev(d.define(s))
            self.stack.pop()
        elif s in d.bbdrv:
            v = []
            dr = d.bbdrv[s]
            for i in range(s.nbits):
                if i in dr:
                    bb, port, pb = dr[i]
                    r = self.rep.get(bb, bb)
                    v.append(0 if self.thin(s, i) else self.bbvar(r, port, pb))
                else:
                    v.append((s.reset.value >> i) & 1)
        elif s in getattr(self, "stuck", ()):
            v = [(s.reset.value >> i) & 1 for i in range(s.nbits)]
        else:
            v = [0 if self.thin(s, i) else self.var(s, i) for i in range(s.nbits)]
        self.val[(s, self.shift_)] = v
        return v

    def thin(self, s, i):
        return self.narrow and s.nbits > 8 and 4 <= i < s.nbits - 1 and i % 4 != 0

    def bbvar(self, bb, port, pb):
        k = ((bb, port), pb)
        return self.b.var(self.level(k[0], k[1]))

    def ev(self, n):
        v = self.val.get((n.id, self.shift_))
        if v is None:
            v = self._ev(n)
            if len(v) != n.n:
                raise AssertionError("width %s %d %d" % (n.op, len(v), n.n))
            self.val[(n.id, self.shift_)] = v
        return v

    def x(self, n, w):
        return self.b.v_ext(self.ev(n), w, n.s)

    def _ev(self, n):
        b = self.b
        o, a = n.op, n.args
        if o == "const":
            return b.v_const(a[0], n.n)
        if o == "sig":
            return self.sigval(n.ref)
        if o == "fit":
            return self.x(a[0], n.n)
        if o == "slice":
            return self.x(a[0], max(a[0].n, a[2]))[a[1]:a[2]]
        if o == "cat":
            return [y for p in a for y in self.ev(p)]
        if o == "ite":
            c = self.ev(a[0])[0]
            if c == 1:
                return self.ev(a[1])
            if c == 0:
                return self.ev(a[2])
            return b.v_ite(c, self.ev(a[1]), self.ev(a[2]))
        if o == "bool":
            return [b.v_or(self.ev(a[0]))]
        if o == "~":
            return [b.not_(y) for y in self.x(a[0], n.n)]
        if o in ("&", "|", "^"):
            g = {"&": b.and_, "|": b.or_, "^": b.xor}[o]
            return [g(p, q) for p, q in zip(self.x(a[0], n.n), self.x(a[1], n.n))]
        if o == "+":
            return b.v_add(self.x(a[0], n.n), self.x(a[1], n.n))
        if o == "-":
            return b.v_sub(self.x(a[0], n.n), self.x(a[1], n.n))
        if o == "neg":
            return b.v_neg(self.x(a[0], n.n))
        if o in ("==", "!=", "<", "<=", ">", ">="):
            w, s = ir.bitwise_ns(a[0], a[1])
            p, q = self.x(a[0], w), self.x(a[1], w)
            if o == "==":
                return [b.v_eq(p, q)]
            if o == "!=":
                return [b.not_(b.v_eq(p, q))]
            if o == "<":
                return [b.v_lt(p, q, s)]
            if o == ">":
                return [b.v_lt(q, p, s)]
            if o == "<=":
                return [b.not_(b.v_lt(q, p, s))]
            return [b.not_(b.v_lt(p, q, s))]
        if o == "<<<":
            return self.shift(n, True)
        if o == ">>>":
            return self.shift(n, False)
        if o == "*":
            return self.mul(n)
        raise TypeError(o)

    def shift(self, n, left):
        b = self.b
        v = self.x(n.args[0], n.n)
        k = n.args[1]
        sgn = v[-1] if (n.args[0].s and not left) else 0
        if k.op == "const":
            c = k.args[0]
            if left:
                return ([0] * c + v)[:n.n]
            return v[c:] + [sgn] * min(c, n.n)
        kb = self.ev(k)
        for i, kbit in enumerate(kb):
            c = 1 << i
            if left:
                sh = ([0] * c + v)[:n.n]
            else:
                sh = (v[c:] + [sgn] * min(c, n.n))[:n.n]
            v = b.v_ite(kbit, sh, v)
        return v

    def mul(self, n):
        b = self.b
        x, y = n.args
        if y.op == "const" or x.op == "const":
            if x.op == "const":
                x, y = y, x
            c = y.args[0]
            v = self.x(x, n.n)
            acc = [0] * n.n
            m = abs(c)
            i = 0
            while m:
                if m & 1:
                    acc = b.v_add(acc, ([0] * i + v)[:n.n])
                m >>= 1
                i += 1
            return b.v_neg(acc) if c < 0 else acc
        p, q = self.x(x, x.n + 1), self.x(y, y.n + 1)
        if all(t < 2 for t in q) or all(t < 2 for t in p) or min(x.n, y.n) <= 4:
            p, q = self.x(x, n.n), self.x(y, n.n)
            acc = [0] * n.n
            for i in range(n.n):
                acc = b.v_ite(q[i], b.v_add(acc, ([0] * i + p)[:n.n]), acc)
            return acc
        # opaque operator, commutative, trimmed of sign/zero extension
        ks = tuple(sorted((self.trim(p), self.trim(q))))
        vs = self.opq.get(ks)
        if vs is None:
            vs = []
            self.opq[ks] = vs
        while len(vs) < n.n:
            vs.append(self.var(("mul", ks), 64 + len(vs)))
        return vs[:n.n]

    @staticmethod
    def trim(p):
        p = list(p)
        while len(p) > 1 and p[-1] == p[-2]:
            p.pop()
        return tuple(p)

    def split_shifts(self, regs):
        """Scalar replacement of shift registers: a register whose bits only move along itself (no bit comes back to an
        earlier one) becomes one register per bit, so that feed-forward delays are seen whichever way they are grouped."""
        d = self.d
        out = []
        for s in regs:
            if not 1 < s.nbits <= 64 or s in d.case_tests or s in self.fixed or s not in self.closure_of(d.define(s), s):
                out.append(s)
                continue
            ps = [f.Signal(reset=(s.reset.value >> i) & 1, name="%s_%d" % (ir.name(s).split(".")[-1], i)) for i in range(s.nbits)]
            memo, through = {}, {}

            def bits(n):
                """bits of n, s replaced by its scalars"""
                r = memo.get(n.id)
                if r is None:
                    r = memo[n.id] = bits_(n)
                    assert len(r) == n.n
                return r

            def ext(n, w):
                b = bits(n)
                return b[:w] + [b[-1] if n.s else ir.ZERO] * (w - len(b))

            def bits_(n):
                o, a = n.op, n.args
                if o == "const":
                    return [ir.const((a[0] >> i) & 1, 1) for i in range(n.n)]
                if o == "sig":
                    if n.ref is s:
                        return [ir.sig(p) for p in ps]
                    if n.ref in d.comb and n.ref not in self.cut and n.ref not in self.fixed and self.reaches(n.ref, s, through):
                        return ext(d.define(n.ref), n.n)
                elif o == "slice":
                    return bits(a[0])[a[1]:a[2]]
                elif o == "cat":
                    return [b for x in a for b in bits(x)]
                elif o == "fit":
                    return ext(a[0], n.n)
                elif o == "ite":
                    c = whole(a[0])
                    return [ir.ite(c, x, y) for x, y in zip(ext(a[1], n.n), ext(a[2], n.n))]
                elif o in ("&", "|", "^") and len(a) == 2:
                    return [ir.op(o, x, y) for x, y in zip(ext(a[0], n.n), ext(a[1], n.n))]
                elif o == "~":
                    return [ir.slc(ir.op("~", x), 0, 1) for x in ext(a[0], n.n)]
                m = whole(n)
                return [ir.slc(m, i, i + 1) for i in range(n.n)]

            wm = {}

            def whole(n):
                r = wm.get(n.id)
                if r is None:
                    if n.op == "sig":
                        r = ir.fit(ir.cat(bits(n)), n.n, n.s) if n.ref is s or (n.ref in d.comb and n.ref not in self.cut and
                                                                               n.ref not in self.fixed and self.reaches(n.ref, s, through)) else n
                    elif n.op in ("slice", "cat", "fit", "ite"):
                        r = ir.fit(ir.cat(bits(n)), n.n, n.s)
                    elif not any(isinstance(x, Node) for x in n.args):
                        r = n
                    else:
                        r = ir.mk(n.op, [whole(x) if isinstance(x, Node) else x for x in n.args], n.n, n.s, n.ref)
                    wm[n.id] = r
                return r

            nx = bits(d.define(s))
            index = {p: i for i, p in enumerate(ps)}
            dep = [{index[x] for x in ir.leaves(n) if x in index} - {i} for i, n in enumerate(nx)]
            done, more = set(), True
            while more:
                new = {i for i in range(s.nbits) if i not in done and dep[i] <= done}
                done |= new
                more = bool(new)
            if len(done) < s.nbits:
                out.append(s)
                continue
            cd = d.sync.pop(s)[0]
            d.comb[s] = []
            d._def[s] = ir.fit(ir.cat([ir.sig(p) for p in ps]), s.nbits, s.signed)
            src = d.srcs(s)
            for p, n in zip(ps, nx):
                d.sync[p] = (cd, [])
                d._def[p] = n
                if src:
                    hooks.SIGSRC[p.duid] = src[0]
            self.scalars = getattr(self, "scalars", 0) + len(ps)
            out += ps
        return out

    def closure_of(self, n, stop):
        """signals read by n, through combinational definitions"""
        seen, nodes, work = set(), set(), [n]
        while work:
            for x in ir.leaves(work.pop(), seen=nodes):
                if x not in seen:
                    seen.add(x)
                    if x in self.d.comb and x not in self.cut:
                        work.append(self.d.define(x))
        return seen

    def reaches(self, c, s, memo):
        if c not in memo:
            memo[c] = s in self.closure_of(self.d.define(c), s)
        return memo[c]

    def find_ff(self, regs):
        """registers outside every dependency cycle, when the cone is single-clock"""
        d = self.d
        only = self.unroll if isinstance(self.unroll, str) else None
        if len({self.dom(d.sync[s][0]) for s in regs}) > 1 and only is None:
            return
        rs = set(regs)
        deps = {}
        for s in regs:
            acc, seen, work = set(), set(), [d.define(s)]
            while work:
                for x in ir.leaves(work.pop(), seen=seen):
                    if x in rs:
                        acc.add(x)
                    elif x in d.comb:
                        work.append(d.define(x))
                    elif x in d.bbdrv:
                        acc.add("bb")
            deps[s] = acc
        # a register is feed-forward iff it cannot reach itself
        for s in regs:
            seen, work = set(), list(deps[s])
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                if not isinstance(x, str):
                    work.extend(deps[x])
            if only is not None and ("bb" in seen or any(self.dom(d.sync[x][0]) != only for x in seen | {s} if not isinstance(x, str))):
                continue        # delays are counted in clocks of one domain
            if s not in seen:
                self.ff.add(s)
            elif s in deps[s]:
                # only a direct hold loop?
                seen, work = set(), [x for x in deps[s] if x is not s]
                while work:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    if not isinstance(x, str):
                        work.extend(deps[x])
                if s not in seen:
                    self.holds.append(s)

    def drop_dead_holds(self, regs):
        """a hold loop that its normal form does not depend on is not a loop"""
        for s in self.holds:
            self.val = {}
            own = {self.uid[k] for k in [(s, i, 0) for i in range(s.nbits)] if k in self.uid}
            sup = set()
            for x in self.ev(self.d.define(s)):
                self.b.support(x, sup)
            if not (sup & own) and self.enum(s) is None:
                self.ff.add(s)
                self.redef[s] = subst(self.d.define(s), s, {})
        self.val = {}
        return [s for s in regs if s not in self.ff]

    # ------------------------------------------------------------ refinement
    def dom(self, cd):
        return self.domalias.get(cd, cd)

    def cone(self, nodes):
        d = self.d
        seen_s, seen_bb = set(), set()
        work = list(nodes)
        seenn = set()
        order_s, order_bb = [], []
        while work:
            n = work.pop()
            for s in ir.leaves(n, seen=seenn):
                if s in seen_s:
                    continue
                seen_s.add(s)
                order_s.append(s)
                if s in self.cut:
                    continue
                df = d.define(s)
                if df is not None:
                    work.append(df)
                elif s in d.bbdrv:
                    for bb, p, i in d.bbdrv[s].values():
                        if bb not in seen_bb:
                            seen_bb.add(bb)
                            order_bb.append(bb)
                            for pn, e in bb.ins:
                                try:
                                    work.append(d.expr(e))
                                except TypeError:
                                    pass
        return order_s, order_bb

    def _care(self, regs, assumptions):
        b = self.b
        care = 1
        for s in regs:
            vs = self.enum(s)
            if vs is None and self.inv:
                V = self.reach(s)
                if V is not None:
                    bits = self.regbits(s)
                    ok = 0
                    for v in sorted(V):
                        ok = b.or_(ok, b.v_eq(bits, b.v_const(v, s.nbits)))
                    care = b.and_(care, ok)
            if vs is None or len(vs) == 2:
                continue
            xs = []
            for v in vs:
                e = (s, ("k", v))
                xs.append(self.elvar(self.rep.get(e, e)))
            none, one = 1, 0
            for x in xs:
                one = b.ite(x, none, one)
                none = b.ite(x, 0, none)
            care = b.and_(care, one)
        for a in assumptions:
            care = b.and_(care, b.v_or(self.ev(a)))
        return care

    def find_constants(self, regs, assumptions):
        """greatest set of elements that stay at reset when all of them are at reset"""
        self.rep = {}
        C = set()
        for s in regs:
            vs = self.enum(s)
            if vs is None:
                C |= {(s, i) for i in range(s.nbits)}
            elif len(vs) == 2:
                C.add((s, 0))
        while C:
            self.const = C
            self.val = {}
            care = self._care(regs, assumptions)
            keep = set()
            for s in regs:
                nx = self.ev(self.d.define(s))
                rv = self.b.v_const(s.reset.value & ((1 << s.nbits) - 1), s.nbits)
                if (s, 0) in C and self.enum(s) is not None:
                    if self.b.and_(self.b.not_(self.b.v_eq(nx, rv)), care) == 0:
                        keep.add((s, 0))
                    continue
                for i in range(s.nbits):
                    if (s, i) in C:
                        x = self.b.not_(nx[i]) if rv[i] == 1 else nx[i]
                        if self.b.and_(x, care) == 0:
                            keep.add((s, i))
            if keep == C:
                break
            C = keep
        self.const = C
        self.val = {}

    def solve(self, obligations, assumptions=(), maxrounds=400):
        """obligations: list of (label, Node).  Returns list of failing (label, bdd)."""
        d = self.d
        nodes = [n for _, n in obligations] + list(assumptions)
        for s in list(d.comb) + list(d.sync):
            d.define(s)
        sigs, bbs = self.cone(nodes)
        regs = [s for s in sigs if s in d.sync]
        regs.sort(key=lambda s: s.duid)
        if self.unroll:
            regs = self.split_shifts(regs)
            self.find_ff(regs)
            regs = [s for s in regs if s not in self.ff]
        bbs.sort(key=lambda x: x.obj.duid if x.obj is not None else 0)
        self.regs, self.bblist = regs, bbs
        self.order(nodes, regs, bbs)
        if self.holds:
            regs = self.drop_dead_holds(regs)
            self.regs = regs
        if self.const_phase:
            self.find_constants(regs, assumptions)
        cls = {}
        for s in regs:
            cd = self.dom(d.sync[s][0])
            vs = self.enum(s)
            rv = s.reset.value & ((1 << s.nbits) - 1)
            if vs is None:
                for i in range(s.nbits):
                    cls[(s, i)] = (cd, i if self.use_index else 0,
                                   s.nbits if self.use_index == "width" else 0)
            elif len(vs) == 2:
                cls[(s, 0)] = (cd, 0, 1 if self.use_index == "width" else 0)
            else:
                for v in vs:
                    cls[(s, ("k", v))] = (cd, 0, 0) if self.mix and v != rv else (cd, "k", rv == v)
        for bb in bbs:
            cls[bb] = (bb.kind,) + tuple(bb.key) + (tuple(p for p, _ in bb.ins), tuple(bb.outs))
        for e in self.const:
            cls[e] = ("const",)
        while True:
            self.rounds += 1
            # representatives
            first = {}
            self.rep = {}
            for e, c in cls.items():
                r = first.setdefault(c, e)
                self.rep[e] = r
            self.val = {}
            care = self._care(regs, assumptions)
            if care == 0:
                raise RuntimeError("assumptions are contradictory: the proof would be vacuous")
            new = {}
            sigtab = {}
            for s in regs:
                nx = self.ev(d.define(s))
                vs = self.enum(s)
                if vs is None:
                    for i in range(s.nbits):
                        x = self.b.not_(nx[i]) if (s.reset.value >> i) & 1 else nx[i]
                        k = (cls[(s, i)], self.b.and_(x, care))
                        new[(s, i)] = sigtab.setdefault(k, len(sigtab))
                elif len(vs) == 2:
                    rv = self.b.v_const(s.reset.value & ((1 << s.nbits) - 1), s.nbits)
                    k = (cls[(s, 0)], self.b.and_(self.b.not_(self.b.v_eq(nx, rv)), care))
                    new[(s, 0)] = sigtab.setdefault(k, len(sigtab))
                else:
                    for v in vs:
                        k = (cls[(s, ("k", v))], self.b.and_(
                            self.b.v_eq(nx, self.b.v_const(v, s.nbits)), care))
                        new[(s, ("k", v))] = sigtab.setdefault(k, len(sigtab))
            for bb in bbs:
                t = []
                for p, e in bb.ins:
                    try:
                        t.append(tuple(self.b.and_(x, care) for x in self.ev(d.expr(e))))
                    except TypeError:
                        t.append(("obj", id(e)))
                k = (cls[bb], tuple(t))
                new[bb] = sigtab.setdefault(k, len(sigtab))
            if len(set(new.values())) == len(set(cls.values())):
                break
            # record splits
            grp = {}
            for e, c in cls.items():
                grp.setdefault(c, set()).add(new[e])
            for e, c in cls.items():
                if len(grp[c]) > 1 and e not in self.split_round:
                    self.split_round[e] = self.rounds
            cls = new
            if self.rounds > maxrounds:
                raise RuntimeError("refinement did not converge")
        self.cls = cls
        self.care = care
        # cross-check: with every value set in use, the sets must be closed under the transition function
        for s in regs if self.enum_mode == "all" else ():
            vs = self.enum(s)
            if vs is not None:
                nx = self.ev(d.define(s))
                out = care
                for v in vs:
                    out = self.b.and_(out, self.b.not_(self.b.v_eq(nx, self.b.v_const(v, s.nbits))))
                if out != 0:
                    raise AssertionError("value set of %s is not closed" % ir.name(s))
        fails = []
        for label, n in obligations:
            v = self.b.v_or(self.ev(n))
            bad = self.b.and_(self.b.not_(v), care)
            if bad != 0:
                fails.append((label, n, bad))
        self.nclasses = len(set(cls.values()))
        return fails

    # ------------------------------------------------------------ reports
    def describe(self, bad, limit=14):
        c = self.b.pick(bad)
        out = []
        words = {}
        for lv, bit in c.items():
            key, i, sh = self.level_name[lv]
            words.setdefault((key, sh), []).append((i, bit))
        for (key, sh), bits in words.items():
            if isinstance(key, tuple) and key and isinstance(key[0], ir.BB):
                nm = "%s.%s" % (key[0].kind, key[1])
            elif isinstance(key, tuple):
                nm = "mul#"
            else:
                nm = ir.name(key)
            if sh:
                nm += "@-%d" % sh
            if len(bits) == 1 and isinstance(bits[0][0], tuple):
                i, bit = bits[0]
                out.append("%s%s%s" % (nm, "==" if bit else "!=", i[1]))
            else:
                out.append(nm + "{" + ",".join("%s:%d" % (i[1] if isinstance(i, tuple) else i, v)
                                               for i, v in sorted(bits, key=str)) + "}")
        return "; ".join(out[:limit]) + (" ..." if len(out) > limit else "")
