"""Check driver: obligations, findings, evidence, exit codes."""
import json
import os
import sys
import time
import traceback

from . import hooks, ir
from .gvn import GVN, CombLoop
from .bdd import BDDLimit
from .structure import fragment
from migen import Module, Signal
from migen.fhdl.structure import _Fragment

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """analysis-broken: an anchor of the analysis vanished (error exit)."""


class Enough(Exception):
    """violations are already found and the run has been long: report them now"""


def flat_signals(x):
    """every Signal reachable from records, CSRs, lists"""
    if x is None:
        return []
    if isinstance(x, Signal):
        return [x]
    if isinstance(x, (list, tuple, set)):
        return [s for y in x for s in flat_signals(y)]
    if hasattr(x, "flatten"):
        return list(x.flatten())
    return [v for v in vars(x).values() if isinstance(v, Signal)]


class AllBut:
    """undriven signals hold their reset value unless they are inputs"""
    def __init__(self, minus):
        self.minus = set(minus)

    def __contains__(self, s):
        return s not in self.minus


class Ctx:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.findings = []
        self.samples = []
        self.rules = []
        self.configs = []
        self.stats = {}
        self.assumptions = []
        self.seen_files = set()
        self.level = "other"
        self._known = None

    # -------------------------------------------------------------- accounting
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume_text(self, t):
        if t not in self.assumptions:
            self.assumptions.append(t)

    def count(self, **k):
        for a, b in k.items():
            self.stats[a] = self.stats.get(a, 0) + b

    def ok(self, n=1, sample=None):
        self.obligations += n
        self.discharged += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, rule, construct, text):
        self.obligations += 1
        self.findings.append({"rule": rule, "construct": construct, "text": text})

    def req(self, cond, rule, construct, text, sample=None):
        if cond:
            self.ok(1, sample)
        else:
            self.bad(rule, construct, text)
        return bool(cond)

    def widths(self, label, *ports):
        """[(port, signal, bits)]: an input narrower than its values would drop bits before any specification sees them"""
        for n, x, w in ports:
            self.req(len(x) >= w, "port-width", "%s/%s" % (label.split(" ")[0], n), "%s: %s carries %d of its %d bits" % (label, n, len(x), w),
                     "%s: %s carries %d bits" % (label, n, w))

    # -------------------------------------------------------------- elaboration
    def elab(self, label, fn, module=True):
        """Run the front end on /repo's constructor.  A repo-side exception is a violation."""
        try:
            m = fn()
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            w = hooks.repo_frame(e)
            if w is None:
                raise
            self.bad("elaborates", label, "%s does not elaborate: %s: %s at %s"
                     % (label, type(e).__name__, e, w))
            return None
        self.configs.append(label)
        return m

    def design(self, label, *mods, **kw):
        fr = _Fragment()
        for m in mods:
            try:
                fr += fragment(m)
            except Exception as e:
                w = hooks.repo_frame(e)
                if w is None:
                    mf = getattr(type(m), "__module__", "")
                    if not mf.startswith("litevideo"):
                        raise
                    w = mf
                self.bad("elaborates", label, "%s does not finalize: %s: %s at %s"
                         % (label, type(e).__name__, e, w))
                return None
        d = ir.Design(fr, **kw)
        self.count(signals_lowered=len(d.comb) + len(d.sync), opaque_operators=len(d.bbs))
        for ss in (d.comb, d.sync):
            for s in ss:
                for w in d.srcs(s):
                    if w.startswith("litevideo"):
                        self.seen_files.add(w.split(":")[0])
        return d

    # -------------------------------------------------------------- equivalence
    STRATS = [dict(enum="case", use_index="width"), dict(enum="case", use_index=False), dict(enum="case", use_index=True), dict(enum="all", use_index=False),
              dict(enum="none", use_index=False), dict(enum="case", use_index=False, inv=True), dict(enum="all", use_index=False, inv=True),
              dict(enum="small", use_index=False), dict(enum="all", use_index=False, mix=True),
              dict(enum="case", use_index=False, const=True)]

    def equiv(self, label, impl, spec, obls, assume=(), rule=None, domalias=None, stuck=(), unroll=False, quiet=False, free=None, fixed=None, cut=(), strats=None):
        """obls: [(name, migen 1-bit expr)]; decided by GVN over impl x spec."""
        if time.time() - self.t0 > 150 and any(not self.known(f) for f in self.findings):
            raise Enough
        mods = [m for m in (impl if isinstance(impl, (list, tuple)) else [impl])]
        d = self.design(label, *(mods + ([spec] if spec is not None else [])), fixed=fixed)
        if d is None:
            return False
        if rule:
            self.rule(rule)
        for s, a, b in d.conflicts:
            self.bad("single-driver", ir.name(s), "%s: %s driven by both %s and %s (%s)"
                     % (label, ir.name(s), a, b, ", ".join(d.srcs(s))))
            return False
        if free is not None:
            stuck = AllBut(flat_signals(free))

        def low(e):
            if callable(e):
                return ir.boolean(e(d))
            return ir.boolean(ir.fit(d.expr(e), len(e), False))
        obn = [(n, low(e)) for n, e in obls]
        asn = [ir.boolean(ir.fit(d.expr(e), len(e), False)) for e in assume]
        best = None
        strats = list(strats or self.STRATS)
        # last resort when every normal form exceeds the node budget: look for a difference on the sub-space where the
        # middle bits of wide words are at reset (can only report a difference, never prove)
        for st, narrow in [(x, False) for x in strats] + [(x, True) for x in strats]:
            if narrow and best is not None:
                break
            g = GVN(d, unroll=unroll, **st)
            g.narrow = narrow
            g.domalias = domalias or {}
            g.cut |= set(flat_signals(cut))     # analysed as free inputs
            g.stuck = stuck
            try:
                fails = g.solve(obn, asn)
            except CombLoop as e:
                self.bad("no-comb-loop", ir.name(e.sigs[0]), "%s: %s at %s" % (
                    label, e, "; ".join(",".join(d.srcs(s)) for s in e.sigs)))
                return False
            except BDDLimit:
                continue
            except RuntimeError:
                if not narrow:
                    raise
                continue
            if narrow and not fails:
                break
            if best is None or len(fails) < len(best[1]):
                best = (g, fails)
            if not fails:
                break
        if best is None:
            raise Broken("%s: normal form exceeds the node budget" % label)
        g, fails = best
        if quiet and fails:
            return False
        self.count(refinement_rounds=g.rounds, congruence_classes=g.nclasses,
                   state_elements=len(g.cls), proofs=1)
        bad = {l for l, _, _ in fails}
        for n, _ in obn:
            if n not in bad:
                self.ok(1, "%s: %s  [%d state elements, %d classes, %d rounds]" % (
                    label, n, len(g.cls), g.nclasses, g.rounds))
        for l, node, cube in fails:
            self.bad("equiv", "%s/%s" % (label.split(" ")[0], l), self.explain(label, l, d, g, node, cube))
        return not fails

    def equiv_any(self, label, impl, variants, **kw):
        """Accept when the design equals one of several equivalent formulations of the specification: [(spec, obls)].
        A normal form that fails is reported against the first."""
        if len(variants) > 1:
            for k, (spec, obls) in enumerate(variants):
                if self.equiv(label, impl, spec, obls, quiet=True, strats=self.STRATS[:4] if k else None, **kw):
                    return True
        return self.equiv(label, impl, variants[0][0], variants[0][1], strats=None if len(variants) == 1 else self.STRATS[:3], **kw)

    def explain(self, label, l, d, g, node, cube):
        sigs, bbs = g.cone([node])
        comb = [s for s in sigs]
        roots = []
        spec_cls, impl = set(), []

        def is_spec(s):
            return any(w.startswith("spec/") for w in d.srcs(s)) or (hooks.SIGSRC.get(s.duid) or "").startswith("spec/")
        for s in comb:
            if s in d.sync:
                es = [(s, i) for i in range(s.nbits)] + [(s, ("k", v)) for v in g.enum(s) or ()]
                for e in es:
                    if e in g.cls:
                        if is_spec(s):
                            spec_cls.add(g.cls[e])
                        else:
                            impl.append((s, e))
        for s, e in impl:
            if g.cls[e] not in spec_cls:
                roots.append((g.split_round.get(e, 0), s))
        roots.sort(key=lambda t: (t[0], t[1].duid))
        seen, lines = set(), []
        for r, s in roots:
            if s in seen:
                continue
            seen.add(s)
            lines.append("%s assigned at %s" % (ir.name(s), ", ".join(d.srcs(s)[:8])))
        if not lines:
            for s in comb:
                if s in d.comb and not is_spec(s) and d.srcs(s) and d.srcs(s)[0].startswith("litevideo"):
                    lines.append("%s assigned at %s" % (ir.name(s), ", ".join(d.srcs(s)[:8])))
        return "%s: obligation '%s' is not discharged; differs when %s. Responsible: %s" % (
            label, l, g.describe(cube), " | ".join(lines[:5]) or "(interface)")

    # -------------------------------------------------------------- end
    def known(self, fi):
        if self._known is None:
            kp = os.path.join(ROOT, "known_findings.json")
            ks = json.load(open(kp))["known"] if os.path.exists(kp) else []
            self._known = [k for k in ks if k["property"] == self.pid]
        return next((k for k in self._known if k["rule"] == fi["rule"] and k["construct"] == fi["construct"]), None)

    def finish(self, min_obligations=1):
        live, listed = [], []
        for fi in self.findings:
            k = self.known(fi)
            (listed if k else live).append((fi, k))
        for fi, k in listed:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, k["what"], fi["construct"]))
        if self.obligations < min_obligations and not live:
            raise Broken("only %d obligations generated, at least %d expected" % (self.obligations, min_obligations))
        cov = {
            "explanation": " ".join(self.rules) or "static analysis of elaborated FHDL",
            "obligations": self.obligations,
            "discharged": self.discharged,
            "known_findings": len(listed),
            "configurations": len(self.configs),
            "configuration_labels": self.configs[:60],
            "source_files": sorted(self.seen_files),
            "samples": self.samples or ["none"],
        }
        cov.update(self.stats)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(live)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        rp = os.path.join(ROOT, "evidence", self.pid + ".violation.txt")
        if os.path.exists(rp):
            os.remove(rp)
        if live:
            with open(rp, "w") as fh:
                for fi, _ in live:
                    fh.write("[%s] %s\n    %s\n" % (fi["rule"], fi["construct"], fi["text"]))
            for fi, _ in live[:8]:
                print(("%s: [%s] %s" % (self.pid, fi["rule"], fi["text"]))[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: held; %d obligations discharged over %d configurations (%.1fs)" % (
            self.pid, self.discharged, len(self.configs), time.time() - self.t0))
        return 0


def main(argv):
    import importlib
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    mod = importlib.import_module("checks." + pid.lower())
    c = Ctx(pid, tier)
    try:
        mod.run(c)
        return c.finish(getattr(mod, "MIN_OBLIGATIONS", 1))
    except Enough:
        return c.finish(0)
    except Broken as e:
        if any(not c.known(f) for f in c.findings):
            print("note: %s" % e)
            return c.finish(0)
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        return 2
    except Exception as e:
        # a repo-side exception while the front end runs is a violation, anything else is ours
        w = hooks.repo_frame(e)
        traceback.print_exc(limit=-6)
        if w:
            c.bad("elaborates", type(e).__name__, "front end raised %s: %s at %s" % (type(e).__name__, e, w))
            return c.finish(0)
        if any(not c.known(f) for f in c.findings):     # what was found before stands
            return c.finish(0)
        return 2
