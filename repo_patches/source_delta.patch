From badf8eaba7786f24e985fbbb054488aeb286b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:02 +0000
Subject: [PATCH 01/22] fix: s6 HDMI out clocking crashed on pads without clk_p
 (VGA)

---
 litevideo/output/hdmi/s6.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/hdmi/s6.py b/litevideo/output/hdmi/s6.py
index 10f9b3a..31a527b 100644
--- a/litevideo/output/hdmi/s6.py
+++ b/litevideo/output/hdmi/s6.py
@@ -168,7 +168,8 @@ class S6HDMIOutClocking(Module, AutoCSR):
                          o_IOCLK=self.cd_pix10x.clk, o_SERDESSTROBE=self.serdesstrobe),
             ]
 
-        # Drive HDMI clock pads
+        # Drive HDMI clock pads (VGA pads have no differential clock)
+        clk_inverted = hasattr(pads, "clk_p") and hasattr(pads.clk_p, "inverted")
         hdmi_clk_se = Signal()
         self.specials += Instance("ODDR2",
                                   p_DDR_ALIGNMENT="NONE", p_INIT=0, p_SRTYPE="SYNC",
@@ -176,8 +177,8 @@ class S6HDMIOutClocking(Module, AutoCSR):
                                   i_C0=ClockSignal("pix"),
                                   i_C1=~ClockSignal("pix"),
                                   i_CE=1,
-                                  i_D0=not hasattr(pads.clk_p, "inverted"),
-                                  i_D1=hasattr(pads.clk_p, "inverted"),
+                                  i_D0=not clk_inverted,
+                                  i_D1=clk_inverted,
                                   i_R=0, i_S=0)
         if hasattr(pads, "clk_p"):
             self.specials += Instance("OBUFDS", i_I=hdmi_clk_se,
-- 
2.43.0


From 9f3749387fb271d591468cd794f16c16b862bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:11 +0000
Subject: [PATCH 02/22] fix: synchronise underflow_enable into the video clock
 domain it is used in

---
 litevideo/output/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 536bfb2..2db1075 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -259,7 +259,7 @@ class VideoOutCore(Module, AutoCSR):
         underflow_enable = Signal()
         underflow_update = Signal()
         underflow_counter = Signal(32)
-        self.specials += MultiReg(self.underflow_enable.storage, underflow_enable)
+        self.specials += MultiReg(self.underflow_enable.storage, underflow_enable, cd)
         underflow_update_synchronizer = PulseSynchronizer("sys", cd)
         self.submodules += underflow_update_synchronizer
         self.comb += [
-- 
2.43.0


From 601daf0853d97cb1ff0d26f8f9a412fec39d3c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 03/22] fix: YCbCr422to444 dropped the first/last markers of
 the stream

---
 litevideo/csc/ycbcr422to444.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/litevideo/csc/ycbcr422to444.py b/litevideo/csc/ycbcr422to444.py
index ef4286a..3d078d7 100644
--- a/litevideo/csc/ycbcr422to444.py
+++ b/litevideo/csc/ycbcr422to444.py
@@ -43,7 +43,9 @@ class YCbCr422to444(Module):
                 cr_fifo.sink.valid.eq(sink.valid & sink.ready),
                 cr_fifo.sink.data.eq(sink.cb_cr),
                 sink.ready.eq(y_fifo.sink.ready & cr_fifo.sink.ready)
-            )
+            ),
+            y_fifo.sink.first.eq(sink.first),
+            y_fifo.sink.last.eq(sink.last)
         ]
 
 
@@ -54,6 +56,8 @@ class YCbCr422to444(Module):
             source.valid.eq(y_fifo.source.valid &
                             cb_fifo.source.valid &
                             cr_fifo.source.valid),
+            source.first.eq(y_fifo.source.first),
+            source.last.eq(y_fifo.source.last),
             source.y.eq(y_fifo.source.data),
             source.cb.eq(cb_fifo.source.data),
             source.cr.eq(cr_fifo.source.data),
-- 
2.43.0


From 9a39818088d293875ecbfe99af087b16859a839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 04/22] fix: RGB2RGB16f produced negative, mis-scaled values
 and a non-zero black

---
 litevideo/csc/rgb2rgb16f.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/litevideo/csc/rgb2rgb16f.py b/litevideo/csc/rgb2rgb16f.py
index f5c3a1c..0c0b4be 100644
--- a/litevideo/csc/rgb2rgb16f.py
+++ b/litevideo/csc/rgb2rgb16f.py
@@ -106,13 +106,16 @@ class PIX2PIXFDatapath(Module):
         lshift = Signal(4)
         frac_val = Signal(10)
 
-        self.submodules.l1 = LeadOne(12)
+        zero = Signal()
+
+        self.submodules.l1 = LeadOne(pix_w)
         self.comb += self.l1.datai.eq(sink.pix)
 
         self.sync += [
             lshift.eq(self.l1.leadone),
             frac_val[3:].eq(sink.pix[:7]),
-            frac_val[:3].eq(0)
+            frac_val[:3].eq(0),
+            zero.eq(sink.pix == 0)
         ]
 
         # Stage 2
@@ -122,7 +125,8 @@ class PIX2PIXFDatapath(Module):
         self.sync += [
             source.pixf[:10].eq(frac_val << lshift),
             source.pixf[10:15].eq(15 - 1 - lshift),
-            source.pixf[15].eq(1)
+            source.pixf[15].eq(0),
+            If(zero, source.pixf[10:15].eq(0))
         ]
 
 class RGB2RGB16f(PipelinedActor, Module):
-- 
2.43.0


From 174ce782040f802a9ebea9135646e4227ba2b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 05/22] fix: RGB16f2RGB converted 1.0 (full intensity) to black

---
 litevideo/csc/rgb16f2rgb.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/litevideo/csc/rgb16f2rgb.py b/litevideo/csc/rgb16f2rgb.py
index 5bcf4a7..3861725 100644
--- a/litevideo/csc/rgb16f2rgb.py
+++ b/litevideo/csc/rgb16f2rgb.py
@@ -37,17 +37,23 @@ class PIXF2PIXDatapath(Module):
         frac = Signal(11)
         exp = Signal(5)
         exp_offset = Signal(5)
+        saturate = Signal()
 
         self.sync += [
             exp_offset.eq(15 - sink.pixf[10:15] - 1),
             frac[:10].eq(sink.pixf[:10]),
-            frac[10].eq(1)
+            frac[10].eq(1),
+            saturate.eq(sink.pixf[10:15] >= 15)
         ]
 
         # Stage 2
         # Right shift frac by exp_offset
         # Most significant 8 bits of frac assigned to uint8 pix
-        self.sync += source.pix.eq( (frac >> exp_offset)[3:])
+        # 1.0 saturates to the maximum pixel value
+        self.sync += [
+            source.pix.eq( (frac >> exp_offset)[3:]),
+            If(saturate, source.pix.eq(2**pix_w - 1))
+        ]
 
 
 class RGB16f2RGB(PipelinedActor, Module):
-- 
2.43.0


From 69b799601a7c35e1c3d8b325df23164ac6d7e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 06/22] fix: FloatMult mixed consecutive products and lost the
 smallest results

---
 litevideo/float_arithmetic/floatmult.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index edd118e..876bafd 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -137,12 +137,16 @@ class FloatMultDatapath(Module):
 
         self.sync += [
             out_status4.eq(out_status3),
-            If((out_exp3 - one_ptr) < 1,
+            If((out_exp3 - one_ptr) < 0,
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult >> (0 - out_exp3)) << 1))
+                If(out_exp3 < 0,
+                    out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
+                ).Else(
+                    out_mult_shift.eq(out_mult3 << (out_exp3[:5] + 1))
+                )
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
-                out_mult_shift.eq(out_mult << one_ptr + 1)
+                out_mult_shift.eq(out_mult3 << one_ptr + 1)
             )
         ]
 
-- 
2.43.0


From d3ff6ec3cca227f739e48c3cb94056d4fd2ce1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 07/22] fix: FloatAdd returned wrong sums for zero and
 subnormal operands

---
 litevideo/float_arithmetic/floatadd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index f02ffdf..1f89727 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -99,7 +99,7 @@ class FloatAddDatapath(Module):
         in2_exp_stage1 = Signal(5)
 
         self.sync += [
-            in1_minus_in2_exp.eq(in1_exp1 - in2_exp),
+            in1_minus_in2_exp.eq(in1_exp1 - in2_exp1),
             in1_frac_stage1.eq(in1_mant),
             in2_frac_stage1.eq(in2_mant),
             in1_exp_stage1.eq(in1_exp1),
@@ -158,8 +158,13 @@ class FloatAddDatapath(Module):
         out_exp_stage4 = Signal(5)
         out_4 = Signal(16)
         self.sync += [
-            out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
-            out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1),
+            If((in1_plus_in2_frac == 0) | (leadone > in1_minus_in2_exp_stage3), # zero or subnormal
+                out_frac_stage4.eq(in1_plus_in2_frac << in1_minus_in2_exp_stage3),
+                out_exp_stage4.eq(0)
+            ).Else(
+                out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
+                out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1)
+            ),
             out_sign_stage4.eq(in1_plus_in2_sign),
             out_4.eq(out_frac_stage4)
         ]
-- 
2.43.0


From b7c67dfe8ae8091b5c02bf1897622027bf28f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 08/22] fix: input DMA did not elaborate (event sources of the
 slots shared a name)

---
 litevideo/input/dma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 1030e4a..9fc581c 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -9,8 +9,8 @@ from litedram.frontend.dma import LiteDRAMDMAWriter
 
 # Slot status: EMPTY=0 LOADED=1 PENDING=2
 class _Slot(Module, AutoCSR):
-    def __init__(self, addr_bits, alignment_bits):
-        self.ev_source = EventSourceLevel()
+    def __init__(self, addr_bits, alignment_bits, name=None):
+        self.ev_source = EventSourceLevel(name=name)
         self.address = Signal(addr_bits)
         self.address_reached = Signal(addr_bits)
         self.address_valid = Signal()
@@ -42,7 +42,7 @@ class _SlotArray(Module, AutoCSR):
 
         # # #
 
-        slots = [_Slot(addr_bits, alignment_bits) for i in range(nslots)]
+        slots = [_Slot(addr_bits, alignment_bits, name="slot"+str(i)) for i in range(nslots)]
         for n, slot in enumerate(slots):
             setattr(self.submodules, "slot"+str(n), slot)
             setattr(self.ev, "slot"+str(n), slot.ev_source)
-- 
2.43.0


From 45508b6484eaf9c08a6a3d5bf2d40f197038ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 09/22] fix: input DMA did not elaborate with a single slot

---
 litevideo/input/dma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 9fc581c..1212587 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -49,7 +49,7 @@ class _SlotArray(Module, AutoCSR):
         self.ev.finalize()
 
         change_slot = Signal()
-        current_slot = Signal(max=nslots)
+        current_slot = Signal(max=max(nslots, 2))
         self.sync += If(change_slot, [If(slot.address_valid, current_slot.eq(n))
                          for n, slot in reversed(list(enumerate(slots)))])
         self.comb += change_slot.eq(~self.address_valid | self.address_done)
-- 
2.43.0


From e22ab849df5b88b0fa2d4ae4085c7682bbf31f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:43 +0000
Subject: [PATCH 10/22] fix: FrameExtraction did not elaborate with one pixel
 per memory word

---
 litevideo/input/analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 1bed19c..44df8d1 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -194,7 +194,7 @@ class FrameExtraction(Module, AutoCSR):
                                               chroma_downsampler.source.cb_cr)),
             pack_factor = word_width//16
             assert(pack_factor & (pack_factor - 1) == 0)  # only support powers of 2
-            self.pack_counter = pack_counter = Signal(max=pack_factor)
+            self.pack_counter = pack_counter = Signal(max=max(pack_factor, 2))
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
@@ -204,7 +204,7 @@ class FrameExtraction(Module, AutoCSR):
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[16*i:16*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
                     cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-                    pack_counter.eq(pack_counter + 1)
+                    pack_counter.eq((pack_counter + 1) & (pack_factor - 1))
                 )
             ]
         else: # rgb case...should probably rewrite to call out unsupported modes instead of defaulting to rgb
@@ -218,7 +218,7 @@ class FrameExtraction(Module, AutoCSR):
             self.comb += encoded_pixel.eq(Cat(self.b,self.g,self.r, dummy8)),
             pack_factor = word_width//32
             assert(pack_factor & (pack_factor - 1) == 0)  # only support powers of 2
-            self.pack_counter = pack_counter = Signal(max=pack_factor)
+            self.pack_counter = pack_counter = Signal(max=max(pack_factor, 2))
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
@@ -228,7 +228,7 @@ class FrameExtraction(Module, AutoCSR):
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[32*i:32*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
                     cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-                    pack_counter.eq(pack_counter + 1)
+                    pack_counter.eq((pack_counter + 1) & (pack_factor - 1))
                 )
             ]
 
-- 
2.43.0


From 82d15c8c2ad89c4ad1e50618db045f33323b4e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:43 +0000
Subject: [PATCH 11/22] fix: WER counted the control characters 00 and 11 as
 errors

---
 litevideo/input/wer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/wer.py b/litevideo/input/wer.py
index 285e537..24ef307 100644
--- a/litevideo/input/wer.py
+++ b/litevideo/input/wer.py
@@ -39,7 +39,7 @@ class WER(Module, AutoCSR):
         # transitions to help the receiver synchronize its clock with the
         # transmitter clock.
         is_control = Signal()
-        self.sync.pix += is_control.eq(reduce(or_, [data_r == ct for ct in control_tokens]))
+        self.sync.pix += is_control.eq(reduce(or_, [data_r == (ct & 0x1ff) for ct in control_tokens]))
 
         # (pipeline stage 3)
         # The TMDS characters selected to represent pixel data contain five or
-- 
2.43.0


From a616324fdf53a9b78b08e8a63b5dc7971f282076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:48 +0000
Subject: [PATCH 12/22] fix: data enable was one pixel late against the pixel
 data in HDMI mode

---
 litevideo/input/__init__.py | 6 +++---
 litevideo/input/decoding.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/__init__.py b/litevideo/input/__init__.py
index 5c566bd..1b8751c 100644
--- a/litevideo/input/__init__.py
+++ b/litevideo/input/__init__.py
@@ -105,9 +105,9 @@ class HDMIIn(Module, AutoCSR):
              #   timingdelay = ClockDomainsRenamer("pix")(timingdelay)
              #   setattr(self.submodules, name + "_timingdelay", timingdelay)
                 # self.comb += timingdelay.sink.eq(getattr(self, "self.chansync.data_out" + str(datan)))  # this code doesn't work. why???
-            self.submodules.data0_timingdelay = TimingDelayChannel(1)
-            self.submodules.data1_timingdelay = TimingDelayChannel(1)
-            self.submodules.data2_timingdelay = TimingDelayChannel(1)
+            self.submodules.data0_timingdelay = TimingDelayChannel(2)
+            self.submodules.data1_timingdelay = TimingDelayChannel(2)
+            self.submodules.data2_timingdelay = TimingDelayChannel(2)
 
             self.comb += [
                 self.data0_timingdelay.sink.eq(self.chansync.data_out0),
diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index 6e607c3..014e78c 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -196,9 +196,11 @@ class DecodeTERC4(Module, AutoCSR):
         self.dvimode = CSRStorage()  # a bit to select DVI mode "de" detection
         dvimode_bit = Signal()
         self.specials += MultiReg(self.dvimode.storage, dvimode_bit)
+        de_r0 = Signal()
         self.de_r = Signal()
         self.sync.pix += [
-            self.de_r.eq(self.data_in0.de)  # delay one clock to match the HDMI pipe latency
+            de_r0.eq(self.data_in0.de),  # delay two clocks to match the HDMI pipe latency
+            self.de_r.eq(de_r0)          # (channel decoders + FSM)
         ]
         self.comb += [
             If(dvimode_bit,
-- 
2.43.0


From 90ad01ac10e8bff317d752a16316baadae2a4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:29 +0000
Subject: [PATCH 13/22] fix: an incomplete word was pushed as the first word of
 the next frame

---
 litevideo/input/analysis.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 44df8d1..e346312 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -198,7 +198,6 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
                     pack_counter.eq(0),
                 ).Elif(chroma_downsampler.source.valid & de,
                     [If(pack_counter == (pack_factor-i-1),
@@ -222,7 +221,6 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
                     pack_counter.eq(0),
                 ).Elif(self.valid_i & de,
                     [If(pack_counter == (pack_factor-i-1),
-- 
2.43.0


From 976b236a4ab7ca418f8e9e5836c19df75a7cadf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:48 +0000
Subject: [PATCH 14/22] fix: s6 input pix_o clock domain was never reset

---
 litevideo/input/clocking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/clocking.py b/litevideo/input/clocking.py
index f7b249c..74ff3cf 100644
--- a/litevideo/input/clocking.py
+++ b/litevideo/input/clocking.py
@@ -83,7 +83,10 @@ class S6Clocking(Module, AutoCSR):
             AsyncResetSynchronizer(self._cd_pix, ~locked_async),
             AsyncResetSynchronizer(self._cd_pix2x, ~locked_async),
         ]
-        self.comb += self._cd_pix_o.clk.eq(self._cd_pix.clk)
+        self.comb += [
+            self._cd_pix_o.clk.eq(self._cd_pix.clk),
+            self._cd_pix_o.rst.eq(self._cd_pix.rst)
+        ]
 
 
 class S7Clocking(Module, AutoCSR):
-- 
2.43.0


From b4a80292de2848b65d4c128353fa01bc7b14d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:10 +0000
Subject: [PATCH 15/22] fix: ycbcr422 video out data was one pixel late against
 its timing

---
 litevideo/output/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/__init__.py b/litevideo/output/__init__.py
index 248efc4..cb20434 100644
--- a/litevideo/output/__init__.py
+++ b/litevideo/output/__init__.py
@@ -58,7 +58,8 @@ class VideoOut(Module, AutoCSR):
         elif mode == "ycbcr422":
             ycbcr422to444 = ClockDomainsRenamer(cd)(YCbCr422to444())
             ycbcr2rgb = ClockDomainsRenamer(cd)(YCbCr2RGB())
-            timing_delay = TimingDelay(ycbcr422to444.latency + ycbcr2rgb.latency)
+            # data is registered once before entering the conversion
+            timing_delay = TimingDelay(1 + ycbcr422to444.latency + ycbcr2rgb.latency)
             timing_delay = ClockDomainsRenamer(cd)(timing_delay)
             self.submodules += ycbcr422to444, ycbcr2rgb, timing_delay
 
-- 
2.43.0


From 9e2f573caa0a33c35370ead0b7bfe367c32905cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:39 +0000
Subject: [PATCH 16/22] fix: test patterns lost and repeated pixels when
 stalled

---
 litevideo/output/pattern.py | 62 +++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/litevideo/output/pattern.py b/litevideo/output/pattern.py
index 63da58b..39f2b97 100644
--- a/litevideo/output/pattern.py
+++ b/litevideo/output/pattern.py
@@ -17,16 +17,16 @@ class ColorBarsPattern(Module):
         # ctrl
         pix = Signal(hbits)
         bar = Signal(3)
+        update = Signal() # output is free or taken
+        self.comb += update.eq(sink.valid & (~source.valid | source.ready))
         self.sync += [
-            If(sink.valid,
+            If(update,
                 source.valid.eq(1),
-                If(source.ready,
-                    If(pix == (sink.hres[3:]-1),
-                        pix.eq(0),
-                        bar.eq(bar + 1)
-                    ).Else(
-                        pix.eq(pix + 1)
-                    )
+                If(pix == (sink.hres[3:]-1),
+                    pix.eq(0),
+                    bar.eq(bar + 1)
+                ).Else(
+                    pix.eq(pix + 1)
                 )
             )
         ]
@@ -50,7 +50,7 @@ class ColorBarsPattern(Module):
                 source.g.eq(color_bar[i][1]),
                 source.b.eq(color_bar[i][2])
             ]
-        self.sync += Case(bar, cases)
+        self.sync += If(update, Case(bar, cases))
 
 
 class VerticalLinesPattern(Module):
@@ -64,11 +64,9 @@ class VerticalLinesPattern(Module):
 
         parity = Signal()
         self.sync += [
-            If(sink.valid,
+            If(sink.valid & (~source.valid | source.ready),
                 source.valid.eq(1),
-                If(source.ready,
-                    parity.eq(~parity)
-                ),
+                parity.eq(~parity),
                 If(parity,
                     source.r.eq(255),
                     source.g.eq(255),
@@ -94,27 +92,25 @@ class DotsPattern(Module):
         h = Signal(hbits)
         parity = Signal()
         self.sync += [
-            If(sink.valid,
+            If(sink.valid & (~source.valid | source.ready),
                 source.valid.eq(1),
-                If(source.ready,
-                    If(h == (sink.hres-1),
-                        # don't change parity:
-                        # next line pixel will
-                        # be swapped.
-                        h.eq(0)
-                    ).Else(
-                        h.eq(h+1),
-                        parity.eq(~parity)
-                    )
+                If(h == (sink.hres-1),
+                    # don't change parity:
+                    # next line pixel will
+                    # be swapped.
+                    h.eq(0)
+                ).Else(
+                    h.eq(h+1),
+                    parity.eq(~parity)
+                ),
+                If(parity,
+                    source.r.eq(255),
+                    source.g.eq(255),
+                    source.b.eq(255)
+                ).Else(
+                    source.r.eq(0),
+                    source.g.eq(0),
+                    source.b.eq(0)
                 )
-            ),
-            If(parity,
-                source.r.eq(255),
-                source.g.eq(255),
-                source.b.eq(255)
-            ).Else(
-                source.r.eq(0),
-                source.g.eq(0),
-                source.b.eq(0)
             )
         ]
-- 
2.43.0


From 709448a740deecd2019f34ef114f204c1103b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:01 +0000
Subject: [PATCH 17/22] fix: terminal lines were 801 clocks long instead of 800

---
 litevideo/terminal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index 8aac296..ab953cc 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -233,7 +233,7 @@ class Terminal(Module):
                 fx.eq(0),
                 text_addr.eq(text_addr_start)
             ),
-            If(pixel_counter == H_FRONT_PORCH,
+            If(pixel_counter == H_FRONT_PORCH - 1,
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
-- 
2.43.0


From 3636871a31db179deba86d4cfc024308f63919c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:35 +0000
Subject: [PATCH 18/22] fix: phase detector flags were synchronised from
 glitching logic

---
 litevideo/input/datacapture.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/litevideo/input/datacapture.py b/litevideo/input/datacapture.py
index f226a9d..d2ffef4 100644
--- a/litevideo/input/datacapture.py
+++ b/litevideo/input/datacapture.py
@@ -188,7 +188,9 @@ class S6DataCapture(Module, AutoCSR):
         ]
 
         # Phase detector control
-        self.specials += MultiReg(Cat(too_late, too_early), self._phase.status)
+        phase = Signal(2)
+        self.sync.pix2x += phase.eq(Cat(too_late, too_early)) # only registers can be synchronized without sampling glitches
+        self.specials += MultiReg(phase, self._phase.status)
         self.submodules.do_reset_lateness = PulseSynchronizer("sys", "pix2x")
         self.comb += [
             reset_lateness.eq(self.do_reset_lateness.o),
@@ -440,7 +442,9 @@ class S7DataCapture(Module, AutoCSR):
         ]
 
         # phase detector control
-        self.specials += MultiReg(Cat(too_late, too_early), self._phase.status)
+        phase = Signal(2)
+        self.sync.pix1p25x += phase.eq(Cat(too_late, too_early)) # only registers can be synchronized without sampling glitches
+        self.specials += MultiReg(phase, self._phase.status)
         self.submodules.do_reset_lateness = PulseSynchronizer("sys", "pix1p25x")
         self.comb += [
             reset_lateness.eq(self.do_reset_lateness.o),
-- 
2.43.0


From 7748d8489c6287a93615724256f304a86cebc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 19/22] fix: terminal vsync was low for one clock less than two
 lines

---
 litevideo/terminal/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index ab953cc..96eef53 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -237,6 +237,10 @@ class Terminal(Module):
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
+                If(line_counter == V_FRONT_PORCH - 1,
+                    # End of image
+                    line_counter.eq(0)
+                ),
 
                 # Font height is 16 pixels
                 fline.eq(fline + 1),
@@ -252,10 +256,6 @@ class Terminal(Module):
             ).Elif(line_counter < V_BACK_PORCH,
                 vsync.eq(1)
             ),
-            If(line_counter == V_FRONT_PORCH,
-                # End of image
-                line_counter.eq(0)
-            ),
             If(line_counter == V_BACK_PORCH - 1,
                 # Prepare generating next image data
                 fline.eq(0),
-- 
2.43.0


From 237f3e971082017cf64db81fe4140e19d631ff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:25 +0000
Subject: [PATCH 20/22] fix: a new framebuffer base took effect in the middle
 of the frame being fetched

---
 litevideo/output/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 2db1075..688562d 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -58,8 +58,7 @@ class DMAReader(Module, AutoCSR):
         offset = Signal(dram_port.aw)
         self.delay_base = CSRStorage(32)
         self.comb += [
-            base.eq(sink.base[shift:]),   # ignore the lower bits of the base + length to match the DMA's expectations
-            length.eq(sink.length[shift:]), # need to noodle on what that expectation is, exactly...
+            length.eq(sink.length[shift:]), # ignore the lower bits of the base + length to match the DMA's expectations
         ]
 
         if genlock_stream != None:
@@ -75,6 +74,7 @@ class DMAReader(Module, AutoCSR):
         if genlock_stream == None:
             fsm.act("IDLE",
                 NextValue(offset, 0),
+                NextValue(base, sink.base[shift:]), # a frame is read from one buffer, even when fetched ahead of its timing
                 If(sink.valid,  # if our parameters are valid, start reading
                        NextState("READ")
                     ).Else(
@@ -94,6 +94,7 @@ class DMAReader(Module, AutoCSR):
         else:
             fsm.act("IDLE",
                 NextValue(offset, self.delay_base.storage),
+                NextValue(base, sink.base[shift:]), # a frame is read from one buffer, even when fetched ahead of its timing
                 If(sink.valid,  # if our parameters are valid, start reading
                        NextState("READ")
                     ).Else(
-- 
2.43.0


From 04b77e0d75486a8d2c706f15c9a62dd9b6b06bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:09 +0000
Subject: [PATCH 21/22] fix: VGA pads showed the next pixel's colour during
 blanking

---
 litevideo/output/driver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/driver.py b/litevideo/output/driver.py
index dccc9ee..7969caf 100644
--- a/litevideo/output/driver.py
+++ b/litevideo/output/driver.py
@@ -29,9 +29,11 @@ class VGAPHY(Module):
             self.sink.ready.eq(1),
             pads.hsync_n.eq(~self.sink.hsync),
             pads.vsync_n.eq(~self.sink.vsync),
-            pads.r.eq(self.sink.r[8-len(pads.r):]),
-            pads.g.eq(self.sink.g[8-len(pads.g):]),
-            pads.b.eq(self.sink.b[8-len(pads.b):]),
+            If(self.sink.de, # black outside the active area (monitors clamp their black level there)
+                pads.r.eq(self.sink.r[8-len(pads.r):]),
+                pads.g.eq(self.sink.g[8-len(pads.g):]),
+                pads.b.eq(self.sink.b[8-len(pads.b):])
+            ),
             pads.psave_n.eq(1)
         ]
 
-- 
2.43.0


From 54a7bc4334650410c78dd662d486a17b54dddce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:19 +0000
Subject: [PATCH 22/22] fix: a new framebuffer length took effect in the middle
 of the frame being fetched

---
 litevideo/output/core.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 688562d..a41d73d 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -57,9 +57,6 @@ class DMAReader(Module, AutoCSR):
         length = Signal(dram_port.aw)
         offset = Signal(dram_port.aw)
         self.delay_base = CSRStorage(32)
-        self.comb += [
-            length.eq(sink.length[shift:]), # ignore the lower bits of the base + length to match the DMA's expectations
-        ]
 
         if genlock_stream != None:
             self.v = Signal()
@@ -74,7 +71,10 @@ class DMAReader(Module, AutoCSR):
         if genlock_stream == None:
             fsm.act("IDLE",
                 NextValue(offset, 0),
-                NextValue(base, sink.base[shift:]), # a frame is read from one buffer, even when fetched ahead of its timing
+                # a frame is read from one buffer, even when fetched ahead of its timing
+                # ignore the lower bits of the base + length to match the DMA's expectations
+                NextValue(base, sink.base[shift:]),
+                NextValue(length, sink.length[shift:]),
                 If(sink.valid,  # if our parameters are valid, start reading
                        NextState("READ")
                     ).Else(
@@ -94,7 +94,10 @@ class DMAReader(Module, AutoCSR):
         else:
             fsm.act("IDLE",
                 NextValue(offset, self.delay_base.storage),
-                NextValue(base, sink.base[shift:]), # a frame is read from one buffer, even when fetched ahead of its timing
+                # a frame is read from one buffer, even when fetched ahead of its timing
+                # ignore the lower bits of the base + length to match the DMA's expectations
+                NextValue(base, sink.base[shift:]),
+                NextValue(length, sink.length[shift:]),
                 If(sink.valid,  # if our parameters are valid, start reading
                        NextState("READ")
                     ).Else(
-- 
2.43.0

