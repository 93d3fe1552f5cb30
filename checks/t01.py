"""T01: terminal video timing."""
from lvsa import hooks  # noqa: F401
from migen import *
from .term import variants, either

META = dict(
    title="Terminal video timing is exactly 640x480 VGA, forever",
    statement="Every line is 800 pixel clocks (hsync low for the first 96) and every picture 521 lines (vsync low for the first 2), without "
              "drift, from reset on and for ever, with internal signals or platform pads.",
    over=["schedules", "inputs"],
    quant="all clock cycles, all memory contents and bus activity",
    why="No test elaborates the terminal; one wrong wrap shows only after a full line or picture.",
    files=["litevideo/terminal/core.py"],
    mech=[("Terminal timing", "litevideo/terminal/core.py:Terminal.__init__")],
    observe=["hsync, vsync"],
    technique="value numbering (AWZ) of the elaborated counters against independent timing counters",
    note="The sync outputs are one register after the counters.",
)


def run(c):
    c.rule("hsync, vsync equal the timing specification in every state of the product.")
    forms = [(False, hold) for hold in (True, False, "edge")]
    for label, m, o in variants(c):
        either(c, label, m, lambda s: [("hsync", o.hsync == s.hsync)], forms, free=[m.bus])
        either(c, label, m, lambda s: [("vsync", o.vsync == s.vsync)], forms, free=[m.bus])


MIN_OBLIGATIONS = 4
