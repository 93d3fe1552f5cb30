"""V02: DVI/TMDS encoder."""
from lvsa import hooks  # noqa: F401
from migen import *
from .common import DVIEncoderSpec, Delay, CTL

META = dict(
    title="TMDS encoder emits the DVI encoding with bounded running disparity",
    statement="For every sequence of pixel bytes, control bits and data-enable, each output word is the DVI 1.0 encoding "
              "of the input presented a fixed number of clocks earlier: transition-minimised, inverted or not according to the running "
              "disparity, or the control character for the two control bits when data-enable was low. The running "
              "disparity equals ones minus zeros of all words emitted since the last control character, and control "
              "characters restart it at zero.",
    over=["inputs", "histories"],
    quant="all byte/control/data-enable sequences of any length and every reachable running disparity",
    why="No bench covers the encoder; disparity is history dependent, so no finite set of vectors settles it.",
    files=["litevideo/output/hdmi/encoder.py"],
    mech=[("Encoder", "litevideo/output/hdmi/encoder.py:Encoder"),
          ("control_tokens", "litevideo/output/hdmi/encoder.py:control_tokens")],
    observe=["encoder output word"],
    technique="value numbering (AWZ, feed-forward retiming) against the DVI 1.0 encoding definition",
    note="Decides the whole statement after the pipeline has filled; the disparity clause follows because the specification "
         "counter is defined as the sum of emitted word disparities.",
)


def run(c):
    from litevideo.output.hdmi import encoder
    c.rule("Encoder output word equals the DVI 1.0 definition applied to the inputs a fixed latency earlier, for every "
           "running-disparity value; feed-forward registers are replaced by delayed inputs so pipelining does not matter.")
    lats = [4, 3, 5, 2, 6]
    for k, lat in enumerate(lats):
        m = c.elab("Encoder", encoder.Encoder) if k == 0 else encoder.Encoder()
        if m is None:
            return
        s = DVIEncoderSpec(m.d, m.c, m.de, lat)
        if c.equiv("Encoder", m, s, [("output word", m.out == s.out)], free=[m.d, m.c, m.de], unroll=True, quiet=True):
            break
    else:
        m = encoder.Encoder()
        s = DVIEncoderSpec(m.d, m.c, m.de, 4)
        c.equiv("Encoder", m, s, [("output word is the DVI encoding of the input four clocks earlier",
                                   m.out == s.out)], free=[m.d, m.c, m.de], unroll=True)
