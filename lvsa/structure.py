"""Structural analyses over the SSA form: tracing, instances, dependency cones, clock domains."""
from . import ir
from .ir import Node
from migen.fhdl.specials import Instance
from migen.fhdl import structure as f


def fragment(m):
    fr = getattr(m, "_lv_frag", None)
    if fr is None:
        fr = m.get_fragment()
        object.__setattr__(m, "_lv_frag", fr)
    return fr


def instances(m, of=None):
    fr = m if hasattr(m, "specials") and hasattr(m, "comb") and isinstance(m.comb, list) else fragment(m)
    r = [s for s in fr.specials if isinstance(s, Instance) and (of is None or s.of == of)]
    return sorted(r, key=lambda s: s.duid)


def port(inst, name):
    for it in inst.items:
        if isinstance(it, (Instance.Input, Instance.Output, Instance.InOut)) and it.name == name:
            return it.expr
    return None


def param(inst, name, default=None):
    for it in inst.items:
        if isinstance(it, Instance.Parameter) and it.name == name:
            v = it.value
            return v.value if isinstance(v, f.Constant) else v
    return default


def trace(d, node, bit=0, inv=False, depth=0):
    """Follow one bit backwards through copies, slices, concatenations and inversions.
    -> ("bb", bb, port, portbit, inv) | ("sig", signal, bit, inv) | ("const", v) | ("expr", node, bit, inv)"""
    if isinstance(node, f._Value):
        node = d.expr(node)
    while True:
        depth += 1
        if depth > 10000:
            return ("expr", node, bit, inv)
        o, a = node.op, node.args
        if o == "sig":
            s = node.ref
            if s in d.sync:
                return ("sig", s, bit, inv)
            if s in d.comb:
                node = d.define(s)
                continue
            if s in d.bbdrv and bit in d.bbdrv[s]:
                bb, p, i = d.bbdrv[s][bit]
                return ("bb", bb, p, i, inv)
            return ("sig", s, bit, inv)
        if o == "const":
            return ("const", ((a[0] >> bit) & 1) ^ int(inv))
        if o == "fit":
            if bit >= a[0].n:
                if not a[0].s:
                    return ("const", int(inv))
                bit = a[0].n - 1
            node = a[0]
            continue
        if o == "slice":
            node, bit = a[0], bit + a[1]
            if bit >= node.n:
                return ("expr", node, bit, inv)
            continue
        if o == "cat":
            for p in a:
                if bit < p.n:
                    node = p
                    break
                bit -= p.n
            continue
        if o == "~":
            if bit >= a[0].n:
                return ("const", 1 ^ int(inv)) if not a[0].s else ("expr", node, bit, inv)
            node, inv = a[0], not inv
            continue
        if o == "bool" and a[0].n == 1:
            node = a[0]
            continue
        return ("expr", node, bit, inv)


def driver_bb(d, s, bit=0):
    """(bb, port, portbit, inverted) that finally drives a bit of s, or None"""
    t = trace(d, ir.sig(s) if isinstance(s, f.Signal) else s, bit)
    return t[1:] if t[0] == "bb" else None


def comb_leaves(d, node, stop=()):
    """non-combinational signals in the combinational cone of node"""
    acc, seen, work, out, done = [], set(), [node], [], set()
    while work:
        for s in ir.leaves(work.pop(), seen=seen):
            if s in done:
                continue
            done.add(s)
            if s in d.comb and s not in stop:
                work.append(d.define(s))
            else:
                out.append(s)
    return out


def clock_of(d, e):
    """name of the clock domain whose clock this expression is (and inversion), or None"""
    node = d.expr(e) if not isinstance(e, Node) else e
    clks = {cd.clk: n for n, cd in d.cds.items()}
    inv = False
    for _ in range(50):
        if node.op == "sig":
            if node.ref in clks:
                return clks[node.ref], inv
            if node.ref in d.comb:
                node = d.define(node.ref)
                continue
            return None
        if node.op == "~":
            inv = not inv
            node = node.args[0]
            continue
        if node.op in ("fit", "bool"):
            node = node.args[0]
            continue
        return None
    return None
