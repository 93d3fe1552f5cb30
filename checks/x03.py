"""X03: software registers are connected."""
from lvsa import hooks, ir
from lvsa.structure import comb_leaves
from migen import *
from .systems import inputs, outputs, cores

META = dict(
    title="Every software register is live: controls have effect, statuses are driven",
    statement="In every configuration each control register or strobe offered to software influences hardware state or an output, and each "
              "status register, interrupt and pending flag is driven by the hardware; none is left unconnected or constant.",
    over=["configurations"],
    quant="all registers of the inputs and outputs in all families, modes and options",
    why="A register that lost its connection still elaborates, and no test accesses registers through a bus.",
    files=["litevideo/input/*.py", "litevideo/output/*.py"],
    mech=[("register banks of HDMIIn", "litevideo/input/__init__.py:HDMIIn"), ("register banks of VideoOut", "litevideo/output/core.py:VideoOutCore")],
    observe=["CSRStorage, CSR, CSRStatus, EventManager of each elaborated system"],
    technique="backward liveness and constant propagation over the elaborated netlist",
    note="delay_base acts only with genlock. A status may be constant when it reports an external generator that has no status.",
)




def readers(d, outputs):
    """signals that influence a primitive, a software status register or an output (backward liveness)"""
    seen, out = set(), set()
    work = [d.expr(e) for bb in d.bbs if bb.kind != "Memory" for _, e in bb.ins] + [ir.sig(s) for s in outputs]
    while work:
        for l in ir.leaves(work.pop(), seen=seen):
            if l in out:
                continue
            out.add(l)
            n = d.define(l)
            if n is not None:
                work.append(n)
            for bb, _, _ in d.bbdrv.get(l, {}).values():
                if bb.kind == "Memory":
                    work += [d.expr(e) for _, e in bb.ins]
    return out


def constant(d, s, memo):
    """s never changes: no inputs, registers or primitives in its cone with a non-constant definition"""
    if s in memo:
        return memo[s]
    memo[s] = True                      # greatest fixpoint
    if s in d.bbdrv:
        r = False
    elif s in d.sync:
        n = d.define(s)
        r = n.op == "sig" and n.ref is s or n.op == "const" and n.args[0] == s.reset.value
    elif s in d.comb:
        n = d.define(s)
        r = n.op == "const" or all(constant(d, l, memo) for l in ir.leaves(n))
    else:
        r = True
    memo[s] = r
    return r


def check(c, label, m, exempt=()):
    d = c.design(label, m)
    if d is None:
        return
    memo = {}
    regs = list(m.get_csrs())
    outs = list(m.lv_outputs)
    for r in regs:
        outs += [s for a in ("status", "w") for s in [getattr(r, a, None)] if isinstance(s, Signal) and type(r).__name__ != "CSRStorage"]
        fl = getattr(r, "fields", None)
        if type(r).__name__ == "CSRStatus" and fl is not None:
            outs += [getattr(fl, f.name) for f in fl.fields]
    for s in list(outs):
        if s not in d.comb and s not in d.sync and s not in d.bbdrv:
            outs.remove(s)
    used = readers(d, outs)
    strobes = {}
    for r in regs:
        k = type(r).__name__
        for a in ("storage", "re", "r", "we"):
            s = getattr(r, a, None)
            if isinstance(s, Signal) and s not in d.sync and s not in d.comb:
                memo[s] = False
    for r in regs:
        k = type(r).__name__
        if any(x in r.name for x in exempt):
            continue
        if k == "CSRStorage":
            c.req(r.storage in used or r.re in used, "control", r.name, "%s: control register %s influences nothing" % (label, r.name),
                  "%s: %s is live" % (label, r.name))
        elif k == "CSR":
            c.req(r.re in used or r.r in used or r.w in d.comb or r.w in d.sync, "control", r.name, "%s: register %s is not connected" % (label, r.name))
        elif k == "CSRStatus":
            fs = [getattr(r.fields, f.name) for f in r.fields.fields] if getattr(r, "fields", None) is not None and r.fields.fields else []
            if r.status not in d.sync and r.status not in d.comb and fs:
                for f in fs:
                    c.req(f in d.sync or f in d.bbdrv or f in d.comb and not constant(d, f, memo), "status", r.name,
                          "%s: field %s of status register %s is not driven by the hardware" % (label, ir.name(f), r.name))
                continue
            c.req((r.status in d.sync or r.status in d.comb or r.status in d.bbdrv) and not constant(d, r.status, memo), "status", r.name,
                  "%s: status register %s is not driven by the hardware" % (label, r.name), "%s: %s is driven" % (label, r.name))
    c.ok(1)


def run(c):
    c.rule("Each control register is live (reaches a primitive, status register or output); each status register has a non-constant driver.")
    full = c.tier != "quick"
    for label, m in inputs(c, full, every=2):
        check(c, label, m)
    for label, m in outputs(c, full):
        check(c, label, m, exempt=("delay_base",))
    for label, m in cores(c, full):
        check(c, label, m, exempt=() if "genlock" in label else ("delay_base",))


MIN_OBLIGATIONS = 500
