"""X01: structural soundness of every configuration."""
from lvsa import hooks, ir
from lvsa.gvn import GVN, CombLoop
from lvsa.structure import comb_leaves
from .systems import everything

META = dict(
    title="Every configuration elaborates into sound hardware",
    statement="Every supported configuration - inputs and outputs on both families, all modes, port widths, slot counts, pads with and without optional "
              "or inverted pins, colour converters, patterns, float units, terminal - elaborates, gives every signal one driver, has no combinational "
              "loop, uses only clock domains it creates (or documents as the user's), and gives each software register a unique name.",
    over=["configurations"],
    quant="the supported configuration space (device, mode, widths, pads, options)",
    why="Tests elaborate six small modules in one configuration; the options interact only at integration.",
    files=["litevideo/input/__init__.py", "litevideo/output/__init__.py", "litevideo/output/driver.py", "litevideo/output/core.py", "litevideo/csc/*.py"],
    mech=[("HDMIIn", "litevideo/input/__init__.py:HDMIIn"), ("VideoOut", "litevideo/output/__init__.py:VideoOut"), ("Driver", "litevideo/output/driver.py:Driver")],
    observe=["elaborated netlists"],
    technique="elaboration of the configuration space; driver, combinational-cycle and clock-domain analysis of each netlist",
    note="Supported means: 4:2:2 input with 16-bit and RGB with 32-bit pixels no wider than the memory word, output port as wide as the mode's pixel.",
)

# clock domains the integrator provides
USER = {"sys", "vga", "pix", "hdmi_out0_pix"}


def cycles(d):
    """strongly connected components of the combinational dependence graph (iterative Tarjan)"""
    deps = {s: [l for l in ir.leaves(d.define(s)) if l in d.comb] for s in d.comb}
    index, low, on, st, out, n = {}, {}, set(), [], [], 0
    for root in deps:
        if root in index:
            continue
        work = [(root, iter(deps[root]))]
        index[root] = low[root] = n
        n += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(deps[w])))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    scc = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        scc.append(w)
                        if w is v:
                            break
                    if len(scc) > 1 or v in deps[v]:
                        out.append(scc)
    return out


def check(c, label, m):
    d = c.design(label, m)
    if d is None:
        return
    for s, a, b in d.conflicts:
        c.bad("single-driver", ir.name(s), "%s: %s is driven by %s and %s (%s)" % (label, ir.name(s), a, b, ", ".join(d.srcs(s)[:4])))
    c.ok(1)
    for scc in cycles(d):
        g = GVN(d)
        try:
            g.solve([("loop", ir.boolean(ir.sig(s))) for s in scc], [])
        except CombLoop as e:
            c.bad("comb-loop", ir.name(e.sigs[0]), "%s: combinational loop through %s" % (
                label, "; ".join("%s (%s)" % (ir.name(s), ",".join(d.srcs(s)[:2])) for s in e.sigs[:5])))
            break
    c.ok(1, "%s: single drivers, acyclic (%d combinational, %d registers)" % (label, len(d.comb), len(d.sync)))
    have = {cd.name for cd in d.frag.clock_domains}
    used = {}
    for s, (cd, _) in d.sync.items():
        used.setdefault(cd, s)
    for cd, s in used.items():
        c.req(cd in have or cd in USER, "clock-domain", cd, "%s: clock domain %s (of %s, %s) does not exist" % (label, cd, ir.name(s), ",".join(d.srcs(s)[:2])))
    made = have & USER
    if label.startswith(("HDMIIn", "VideoOut(")):
        c.req("pix" in made, "clock-domain", "pix", label + ": pixel clock domain is not created")
    if hasattr(m, "get_csrs"):
        names = [r.name for r in m.get_csrs()]
        dup = {n for n in names if names.count(n) > 1}
        c.req(not dup, "csr-names", ",".join(sorted(dup)) or "-", "%s: software registers share the names %s" % (label, sorted(dup)))


def run(c):
    c.rule("Elaborate each configuration; no conflicting drivers, no combinational cycle, all clock domains exist, register names unique.")
    for label, m in everything(c, c.tier != "quick"):
        check(c, label, m)


MIN_OBLIGATIONS = 200
