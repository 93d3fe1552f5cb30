"""Import the code under analysis from /repo and record source positions.

Only construction (elaboration, i.e. this hardware language's front end) is ever
executed; no clock cycle is simulated anywhere in the analyser."""
import os
import sys

REPO = os.environ.get("LV_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import migen.fhdl.structure as _f          # noqa: E402
import migen.genlib.fsm as _fsm            # noqa: E402

_PFX = os.path.join(REPO, "litevideo") + os.sep
_SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks") + os.sep


def where(depth=2):
    fr = sys._getframe(depth)
    while fr is not None:
        fn = fr.f_code.co_filename
        if fn.startswith(_PFX):
            return "%s:%d" % (os.path.relpath(fn, REPO), fr.f_lineno)
        if fn.startswith(_SPEC):
            return "spec/%s:%d" % (os.path.basename(fn), fr.f_lineno)
        fr = fr.f_back
    return None


SIGSRC = {}


def _wrap(cls, rec=None):
    orig = cls.__init__

    def __init__(self, *a, **k):
        orig(self, *a, **k)
        w = where(2)
        if rec is not None:
            rec[self.duid] = w
        else:
            try:
                self.src = w
            except AttributeError:
                pass
    cls.__init__ = __init__


_wrap(_f._Assign)
_wrap(_f.If)
_wrap(_f.Case)
_wrap(_fsm.NextValue)
_wrap(_fsm.NextState)


def _wrap_duid():
    cls = _f.DUID
    orig = cls.__init__

    def __init__(self):
        orig(self)
        SIGSRC[self.duid] = where(2)
    cls.__init__ = __init__


_wrap_duid()


def _lower_next_wrap():
    orig = _fsm._LowerNext.visit_unknown

    def visit_unknown(self, node):
        r = orig(self, node)
        src = getattr(node, "src", None)
        if src:
            for s in (r if isinstance(r, (list, tuple)) else [r]):
                if isinstance(s, _f._Assign):
                    s.src = src
        return r
    _fsm._LowerNext.visit_unknown = visit_unknown


_lower_next_wrap()


def repo_frame(exc):
    """Innermost /repo frame of an exception, or None."""
    tb = exc.__traceback__
    best = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(_PFX):
            best = "%s:%d (%s)" % (os.path.relpath(fn, REPO), tb.tb_lineno, tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return best
