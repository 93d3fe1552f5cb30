"""Reduced ordered BDDs: the canonical normal form used for value numbering.

Pure Python, no solver.  Two Boolean functions over the same variables are equal
iff they are represented by the same integer."""
import sys
sys.setrecursionlimit(200000)


class BDDLimit(Exception):
    pass


class BDD:
    F = 0
    T = 1

    def __init__(self, limit=6_000_000):
        self.lv = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.cache = {}
        self.limit = limit

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.lv)
            if r > self.limit:
                raise BDDLimit("BDD node limit")
            self.lv.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = r
        return r

    def var(self, level):
        return self.mk(level, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        if f == g:
            g = 1
            if h == 0:
                return f
        elif f == h:
            h = 0
            if g == 1:
                return f
        # normalise and/or
        if h == 0 and f > g:
            f, g = g, f
        elif g == 1 and f > h:
            f, h = h, f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        lv, lo, hi = self.lv, self.lo, self.hi
        a, b, c = lv[f], lv[g], lv[h]
        v = a if a < b else b
        if c < v:
            v = c
        if a == v:
            f0, f1 = lo[f], hi[f]
        else:
            f0 = f1 = f
        if b == v:
            g0, g1 = lo[g], hi[g]
        else:
            g0 = g1 = g
        if c == v:
            h0, h1 = lo[h], hi[h]
        else:
            h0 = h1 = h
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def not_(self, f):
        return self.ite(f, 0, 1)

    def and_(self, f, g):
        return self.ite(f, g, 0)

    def or_(self, f, g):
        return self.ite(f, 1, g)

    def xor(self, f, g):
        if f == g:
            return 0
        if f == 0:
            return g
        if g == 0:
            return f
        if f == 1:
            return self.not_(g)
        if g == 1:
            return self.not_(f)
        if f > g:
            f, g = g, f
        return self.ite(f, self.not_(g), g)

    def xnor(self, f, g):
        return self.not_(self.xor(f, g))

    def support(self, f, acc=None, seen=None):
        acc = set() if acc is None else acc
        seen = set() if seen is None else seen
        st = [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            acc.add(self.lv[x])
            st.append(self.lo[x])
            st.append(self.hi[x])
        return acc

    def pick(self, f):
        """One satisfying partial assignment {level: bit} or None."""
        if f == 0:
            return None
        r = {}
        while f != 1:
            if self.lo[f] != 0:
                r[self.lv[f]] = 0
                f = self.lo[f]
            else:
                r[self.lv[f]] = 1
                f = self.hi[f]
        return r

    def size(self, f):
        seen = set()
        self.support(f, None, seen)
        return len(seen)

    # ---- vectors (LSB first) -------------------------------------------------
    def v_const(self, val, n):
        return [(val >> i) & 1 for i in range(n)]

    def v_ext(self, a, n, signed):
        if len(a) >= n:
            return a[:n]
        return a + [(a[-1] if (signed and a) else 0)] * (n - len(a))

    def v_add(self, a, b, cin=0):
        out = []
        c = cin
        for x, y in zip(a, b):
            s = self.xor(x, y)
            out.append(self.xor(s, c))
            c = self.ite(s, c, x)
        return out

    def v_neg(self, a):
        return self.v_add([self.not_(x) for x in a], [0] * len(a), 1)

    def v_sub(self, a, b):
        return self.v_add(a, [self.not_(x) for x in b], 1)

    def v_ite(self, c, a, b):
        return [self.ite(c, x, y) for x, y in zip(a, b)]

    def v_eq(self, a, b):
        r = 1
        for x, y in zip(a, b):
            r = self.and_(r, self.xnor(x, y))
            if r == 0:
                break
        return r

    def v_lt(self, a, b, signed):
        """a < b, equal width."""
        r = 0
        n = len(a)
        for i, (x, y) in enumerate(zip(a, b)):
            if signed and i == n - 1:
                x, y = y, x
            r = self.ite(self.xor(x, y), y, r)
        return r

    def v_or(self, a):
        r = 0
        for x in a:
            r = self.or_(r, x)
        return r
