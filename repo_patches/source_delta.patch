From dfe85e5a21fc29643c7165820a06a04321e3c62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:57 +0000
Subject: [PATCH 01/21] fix: RGB to half-float pixel conversion (exponent, sign
 and zero)

The leading one of an 8-bit pixel was searched in 12 bits, so exponents were
off by four, the sign bit was set and black was not converted to 0.
---
 litevideo/csc/rgb2rgb16f.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/litevideo/csc/rgb2rgb16f.py b/litevideo/csc/rgb2rgb16f.py
index f5c3a1c..07ba40c 100644
--- a/litevideo/csc/rgb2rgb16f.py
+++ b/litevideo/csc/rgb2rgb16f.py
@@ -105,14 +105,16 @@ class PIX2PIXFDatapath(Module):
 
         lshift = Signal(4)
         frac_val = Signal(10)
+        is_zero = Signal()
 
-        self.submodules.l1 = LeadOne(12)
+        self.submodules.l1 = LeadOne(pix_w)
         self.comb += self.l1.datai.eq(sink.pix)
 
         self.sync += [
             lshift.eq(self.l1.leadone),
             frac_val[3:].eq(sink.pix[:7]),
-            frac_val[:3].eq(0)
+            frac_val[:3].eq(0),
+            is_zero.eq(sink.pix == 0)
         ]
 
         # Stage 2
@@ -120,9 +122,13 @@ class PIX2PIXFDatapath(Module):
         # Pack in 16bit float
 
         self.sync += [
-            source.pixf[:10].eq(frac_val << lshift),
-            source.pixf[10:15].eq(15 - 1 - lshift),
-            source.pixf[15].eq(1)
+            If(is_zero,
+                source.pixf.eq(0)
+            ).Else(
+                source.pixf[:10].eq(frac_val << lshift),
+                source.pixf[10:15].eq(15 - 1 - lshift),
+                source.pixf[15].eq(0)
+            )
         ]
 
 class RGB2RGB16f(PipelinedActor, Module):
-- 
2.43.0


From 78c8910beac6f7c8f6d7f33b0bbd4cded7794947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:57 +0000
Subject: [PATCH 02/21] fix: half-float pixel 1.0 is converted to white instead
 of black

1.0 is inside the documented [0-1] range but its exponent offset wrapped.
---
 litevideo/csc/rgb16f2rgb.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/litevideo/csc/rgb16f2rgb.py b/litevideo/csc/rgb16f2rgb.py
index 5bcf4a7..7aa585b 100644
--- a/litevideo/csc/rgb16f2rgb.py
+++ b/litevideo/csc/rgb16f2rgb.py
@@ -37,8 +37,10 @@ class PIXF2PIXDatapath(Module):
         frac = Signal(11)
         exp = Signal(5)
         exp_offset = Signal(5)
+        overflow = Signal()
 
         self.sync += [
+            overflow.eq(sink.pixf[10:15] >= 15),
             exp_offset.eq(15 - sink.pixf[10:15] - 1),
             frac[:10].eq(sink.pixf[:10]),
             frac[10].eq(1)
@@ -47,7 +49,13 @@ class PIXF2PIXDatapath(Module):
         # Stage 2
         # Right shift frac by exp_offset
         # Most significant 8 bits of frac assigned to uint8 pix
-        self.sync += source.pix.eq( (frac >> exp_offset)[3:])
+        # 1.0 is out of the range of uint8 pix and is saturated
+        self.sync += \
+            If(overflow,
+                source.pix.eq(2**pix_w - 1)
+            ).Else(
+                source.pix.eq( (frac >> exp_offset)[3:])
+            )
 
 
 class RGB16f2RGB(PipelinedActor, Module):
-- 
2.43.0


From 9f602607c04f594b8c462294aea2053e0193f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:57 +0000
Subject: [PATCH 03/21] fix: FloatMult stage 4 uses the product of its own
 operands

The unpipelined product of the following operands was shifted with the
exponent of the current ones.
---
 litevideo/float_arithmetic/floatmult.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index edd118e..ccd2e5a 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -139,10 +139,10 @@ class FloatMultDatapath(Module):
             out_status4.eq(out_status3),
             If((out_exp3 - one_ptr) < 1,
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult >> (0 - out_exp3)) << 1))
+                out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
-                out_mult_shift.eq(out_mult << one_ptr + 1)
+                out_mult_shift.eq(out_mult3 << one_ptr + 1)
             )
         ]
 
-- 
2.43.0


From b0652f90b316b6469724fa1ab37f3169b7f629a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:57 +0000
Subject: [PATCH 04/21] fix: FloatMult results around the smallest normal
 number

Products with exponent field 1 were packed as subnormals and lost their
leading one; subnormal results of larger exponents were shifted by a negative
amount.
---
 litevideo/float_arithmetic/floatmult.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index ccd2e5a..1b70fd6 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -137,9 +137,14 @@ class FloatMultDatapath(Module):
 
         self.sync += [
             out_status4.eq(out_status3),
-            If((out_exp3 - one_ptr) < 1,
+            If((out_exp3 - one_ptr) < 0,
+                # subnormal result
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
+                If(out_exp3 < 0,
+                    out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
+                ).Else(
+                    out_mult_shift.eq(out_mult3 << (out_exp3 + 1))
+                )
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
                 out_mult_shift.eq(out_mult3 << one_ptr + 1)
-- 
2.43.0


From cecc6d434f600437627248b0030a53a13001dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:57 +0000
Subject: [PATCH 05/21] fix: FloatAdd alignment of a subnormal second operand

---
 litevideo/float_arithmetic/floatadd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index f02ffdf..827742c 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -99,7 +99,7 @@ class FloatAddDatapath(Module):
         in2_exp_stage1 = Signal(5)
 
         self.sync += [
-            in1_minus_in2_exp.eq(in1_exp1 - in2_exp),
+            in1_minus_in2_exp.eq(in1_exp1 - in2_exp1),
             in1_frac_stage1.eq(in1_mant),
             in2_frac_stage1.eq(in2_mant),
             in1_exp_stage1.eq(in1_exp1),
-- 
2.43.0


From bb00b49b61a7aa7d0ffbd5aa723df88c87d992aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:57 +0000
Subject: [PATCH 06/21] fix: FloatAdd zero and subnormal results

0 + 0 gave 2**-13 and the exponent of subnormal sums wrapped.
---
 litevideo/float_arithmetic/floatadd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index 827742c..9163d36 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -158,8 +158,14 @@ class FloatAddDatapath(Module):
         out_exp_stage4 = Signal(5)
         out_4 = Signal(16)
         self.sync += [
-            out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
-            out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1),
+            If((in1_plus_in2_frac == 0) | (leadone > in1_minus_in2_exp_stage3),
+                # zero or subnormal result
+                out_frac_stage4.eq(in1_plus_in2_frac << in1_minus_in2_exp_stage3),
+                out_exp_stage4.eq(0)
+            ).Else(
+                out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
+                out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1)
+            ),
             out_sign_stage4.eq(in1_plus_in2_sign),
             out_4.eq(out_frac_stage4)
         ]
-- 
2.43.0


From 48a6bb09884c39219bc1558042e552f3c43d5456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:43 +0000
Subject: [PATCH 07/21] fix: YCbCr444to422 pairs pixels from the first pixel of
 a packet

The pairing of the actor depended on the number of idle cycles since reset.
The first flag of the packet now restarts it, as FrameExtraction already did
by hand.
---
 litevideo/csc/ycbcr444to422.py | 5 ++++-
 litevideo/input/analysis.py    | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/litevideo/csc/ycbcr444to422.py b/litevideo/csc/ycbcr444to422.py
index c82babe..3289b8a 100644
--- a/litevideo/csc/ycbcr444to422.py
+++ b/litevideo/csc/ycbcr444to422.py
@@ -79,7 +79,10 @@ class YCbCr444to422(PipelinedActor, Module):
 
         self.submodules.datapath = YCbCr444to422Datapath(dw)
         PipelinedActor.__init__(self, self.datapath.latency)
-        self.comb += self.datapath.ce.eq(self.pipe_ce)
+        self.comb += [
+            self.datapath.ce.eq(self.pipe_ce),
+            self.datapath.first.eq(sink.valid & sink.first)
+        ]
         for name in ["y", "cb", "cr"]:
             self.comb += getattr(self.datapath.sink, name).eq(getattr(sink, name))
         for name in ["y", "cb_cr"]:
diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 1bed19c..2944989 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -166,12 +166,12 @@ class FrameExtraction(Module, AutoCSR):
             self.submodules += ClockDomainsRenamer("pix")(chroma_downsampler)
             self.comb += [
                 rgb2ycbcr.sink.valid.eq(self.valid_i),
+                rgb2ycbcr.sink.first.eq(self.de & ~de_r),
                 rgb2ycbcr.sink.r.eq(self.r),
                 rgb2ycbcr.sink.g.eq(self.g),
                 rgb2ycbcr.sink.b.eq(self.b),
                 rgb2ycbcr.source.connect(chroma_downsampler.sink),
-                chroma_downsampler.source.ready.eq(1),
-                chroma_downsampler.datapath.first.eq(self.de & ~de_r) # XXX need clean up
+                chroma_downsampler.source.ready.eq(1)
             ]
             # XXX need clean up
             de = self.de
-- 
2.43.0


From 1b0b32a102ca65e41820b3db7efb2d262e633a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:43 +0000
Subject: [PATCH 08/21] fix: YCbCr422to444 forwards first and last

Packets never ended for the consumers of the actor.
---
 litevideo/csc/ycbcr422to444.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/litevideo/csc/ycbcr422to444.py b/litevideo/csc/ycbcr422to444.py
index ef4286a..b2990e1 100644
--- a/litevideo/csc/ycbcr422to444.py
+++ b/litevideo/csc/ycbcr422to444.py
@@ -27,6 +27,14 @@ class YCbCr422to444(Module):
         cr_fifo = stream.SyncFIFO([("data", dw)], 4)
         self.submodules += y_fifo, cb_fifo, cr_fifo
 
+        # packet delimiters follow the luma of their pixel
+        self.comb += [
+            y_fifo.sink.first.eq(sink.first),
+            y_fifo.sink.last.eq(sink.last),
+            source.first.eq(y_fifo.source.first),
+            source.last.eq(y_fifo.source.last)
+        ]
+
         # input
         parity_in = Signal()
         self.sync += If(sink.valid & sink.ready, parity_in.eq(~parity_in))
-- 
2.43.0


From 9e5eb44462092b0003e51eeba9831e7959dd8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:08 +0000
Subject: [PATCH 09/21] fix: HDMI receiver delays video data as much as the
 decoded data enable

---
 litevideo/input/__init__.py | 6 +++---
 litevideo/input/decoding.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/__init__.py b/litevideo/input/__init__.py
index 5c566bd..1b8751c 100644
--- a/litevideo/input/__init__.py
+++ b/litevideo/input/__init__.py
@@ -105,9 +105,9 @@ class HDMIIn(Module, AutoCSR):
              #   timingdelay = ClockDomainsRenamer("pix")(timingdelay)
              #   setattr(self.submodules, name + "_timingdelay", timingdelay)
                 # self.comb += timingdelay.sink.eq(getattr(self, "self.chansync.data_out" + str(datan)))  # this code doesn't work. why???
-            self.submodules.data0_timingdelay = TimingDelayChannel(1)
-            self.submodules.data1_timingdelay = TimingDelayChannel(1)
-            self.submodules.data2_timingdelay = TimingDelayChannel(1)
+            self.submodules.data0_timingdelay = TimingDelayChannel(2)
+            self.submodules.data1_timingdelay = TimingDelayChannel(2)
+            self.submodules.data2_timingdelay = TimingDelayChannel(2)
 
             self.comb += [
                 self.data0_timingdelay.sink.eq(self.chansync.data_out0),
diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index 6e607c3..6bd201f 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -197,8 +197,10 @@ class DecodeTERC4(Module, AutoCSR):
         dvimode_bit = Signal()
         self.specials += MultiReg(self.dvimode.storage, dvimode_bit)
         self.de_r = Signal()
+        de_r0 = Signal()
         self.sync.pix += [
-            self.de_r.eq(self.data_in0.de)  # delay one clock to match the HDMI pipe latency
+            de_r0.eq(self.data_in0.de),  # delay two clocks to match the HDMI pipe latency
+            self.de_r.eq(de_r0)
         ]
         self.comb += [
             If(dvimode_bit,
-- 
2.43.0


From 38d526dfcb62b64e0b3815def0bc07cb992fc343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:31 +0000
Subject: [PATCH 10/21] fix: FrameExtraction pushes no stale word at the start
 of a frame

---
 litevideo/input/analysis.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 2944989..bba7617 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -198,7 +198,6 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
                     pack_counter.eq(0),
                 ).Elif(chroma_downsampler.source.valid & de,
                     [If(pack_counter == (pack_factor-i-1),
@@ -222,7 +221,6 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
                     pack_counter.eq(0),
                 ).Elif(self.valid_i & de,
                     [If(pack_counter == (pack_factor-i-1),
-- 
2.43.0


From 10c74bdb0c7edd1ddedf26439314ceb1856258ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:31 +0000
Subject: [PATCH 11/21] fix: DMA slots give their events distinct names

LiteX's EventManager refuses event sources with the same name, so a DMA with
more than one slot (the default of HDMIIn) could not be built.
---
 litevideo/input/dma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 1030e4a..374f268 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -9,8 +9,8 @@ from litedram.frontend.dma import LiteDRAMDMAWriter
 
 # Slot status: EMPTY=0 LOADED=1 PENDING=2
 class _Slot(Module, AutoCSR):
-    def __init__(self, addr_bits, alignment_bits):
-        self.ev_source = EventSourceLevel()
+    def __init__(self, addr_bits, alignment_bits, name):
+        self.ev_source = EventSourceLevel(name=name)
         self.address = Signal(addr_bits)
         self.address_reached = Signal(addr_bits)
         self.address_valid = Signal()
@@ -42,7 +42,7 @@ class _SlotArray(Module, AutoCSR):
 
         # # #
 
-        slots = [_Slot(addr_bits, alignment_bits) for i in range(nslots)]
+        slots = [_Slot(addr_bits, alignment_bits, "slot"+str(n)) for n in range(nslots)]
         for n, slot in enumerate(slots):
             setattr(self.submodules, "slot"+str(n), slot)
             setattr(self.ev, "slot"+str(n), slot.ev_source)
-- 
2.43.0


From 2b9cf506974548ba058751fbb98f5d6b2e54b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:10 +0000
Subject: [PATCH 12/21] fix: DMA moves on to the next armed slot when a slot
 completes

The completed slot was still seen as armed in the cycle of its completion and
was selected again, so a start of frame waiting in that moment was dropped
although another slot was armed.
---
 litevideo/input/dma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 374f268..4efa599 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -50,7 +50,7 @@ class _SlotArray(Module, AutoCSR):
 
         change_slot = Signal()
         current_slot = Signal(max=nslots)
-        self.sync += If(change_slot, [If(slot.address_valid, current_slot.eq(n))
+        self.sync += If(change_slot, [If(slot.address_valid & ~slot.address_done, current_slot.eq(n))
                          for n, slot in reversed(list(enumerate(slots)))])
         self.comb += change_slot.eq(~self.address_valid | self.address_done)
 
-- 
2.43.0


From d5fa7da15da94d80a194ef8597d13280abd173ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 13/21] fix: DMAReader reads a frame from one buffer

The base address was used combinationally while the next frame was already
being prefetched, so a base address change (double buffering) gave a frame
whose first words came from the old buffer and the others from the new one.
---
 litevideo/output/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 536bfb2..5b067ab 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -58,7 +58,7 @@ class DMAReader(Module, AutoCSR):
         offset = Signal(dram_port.aw)
         self.delay_base = CSRStorage(32)
         self.comb += [
-            base.eq(sink.base[shift:]),   # ignore the lower bits of the base + length to match the DMA's expectations
+            # ignore the lower bits of the base + length to match the DMA's expectations
             length.eq(sink.length[shift:]), # need to noodle on what that expectation is, exactly...
         ]
 
@@ -74,6 +74,7 @@ class DMAReader(Module, AutoCSR):
 
         if genlock_stream == None:
             fsm.act("IDLE",
+                NextValue(base, sink.base[shift:]),  # a frame is read from one buffer, even if base changes meanwhile
                 NextValue(offset, 0),
                 If(sink.valid,  # if our parameters are valid, start reading
                        NextState("READ")
@@ -93,6 +94,7 @@ class DMAReader(Module, AutoCSR):
             )
         else:
             fsm.act("IDLE",
+                NextValue(base, sink.base[shift:]),  # a frame is read from one buffer, even if base changes meanwhile
                 NextValue(offset, self.delay_base.storage),
                 If(sink.valid,  # if our parameters are valid, start reading
                        NextState("READ")
-- 
2.43.0


From d87169d7bfe6538de129e1b3133a185bf5e5dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 14/21] fix: DMAReader stops when its parameters are taken away

When the output was disabled the reader went on with whatever length the empty
parameter FIFO showed; with a stale length behind the current offset it ran
through the whole address space, and an output enabled again in that time
stayed out of step with its picture.
---
 litevideo/output/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 5b067ab..c11cc0b 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -86,7 +86,7 @@ class DMAReader(Module, AutoCSR):
                 self.dma.sink.valid.eq(1),  # tell the DMA reader that we've got a valid address for it
                 If(self.dma.sink.ready, # if the LiteDRAMDMAReader shows it's ready for an address (e.g. taken the current address)
                     NextValue(offset, offset + 1), # increment the offset
-                    If(offset == (length - 1),  # at the end...
+                    If((offset == (length - 1)) | ~sink.valid,  # at the end or when disabled...
                         self.sink.ready.eq(1),  # indicate we're ready for more parameters
                         NextState("IDLE")
                     )
@@ -106,7 +106,7 @@ class DMAReader(Module, AutoCSR):
                 self.dma.sink.valid.eq(1),  # tell the DMA reader that we've got a valid address for it
                 If(self.dma.sink.ready, # if the LiteDRAMDMAReader shows it's ready for an address (e.g. taken the current address)
                     NextValue(offset, offset + 1), # increment the offset
-                    If(offset == (length - 1),  # at the end...
+                    If((offset == (length - 1)) | ~sink.valid,  # at the end or when disabled...
                         self.sink.ready.eq(1),  # indicate we're ready for more parameters
                         NextState("WAIT_SOF")
                     )
-- 
2.43.0


From 331c0bbb6ec79510656e7d620fe38be1b2f9dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:04 +0000
Subject: [PATCH 15/21] fix: 4:2:2 output keeps pixels and timing signals
 aligned

The data path has one register more than the timing delay accounted for, so
every line was shown one pixel late: the first active pixel was stale and the
last one was lost.
---
 litevideo/output/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/__init__.py b/litevideo/output/__init__.py
index 248efc4..783637b 100644
--- a/litevideo/output/__init__.py
+++ b/litevideo/output/__init__.py
@@ -58,7 +58,8 @@ class VideoOut(Module, AutoCSR):
         elif mode == "ycbcr422":
             ycbcr422to444 = ClockDomainsRenamer(cd)(YCbCr422to444())
             ycbcr2rgb = ClockDomainsRenamer(cd)(YCbCr2RGB())
-            timing_delay = TimingDelay(ycbcr422to444.latency + ycbcr2rgb.latency)
+            # 1: the data register below
+            timing_delay = TimingDelay(1 + ycbcr422to444.latency + ycbcr2rgb.latency)
             timing_delay = ClockDomainsRenamer(cd)(timing_delay)
             self.submodules += ycbcr422to444, ycbcr2rgb, timing_delay
 
-- 
2.43.0


From 48d23b06042f82e15e6d159e26d666a687fc2073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:15 +0000
Subject: [PATCH 16/21] fix: EDID releases SDA when hot plug is disabled in the
 middle of a read

---
 litevideo/input/edid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 04ccb15..477fd38 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -255,4 +255,7 @@ class EDID(Module, AutoCSR):
         for state in fsm.actions.keys():
             fsm.act(state, If(start, NextState("RCV_ADDRESS")))
             if hasattr(pads, "hpd_en"):
-                fsm.act(state, If(~self._hpd_en.storage, NextState("WAIT_START")))
+                fsm.act(state, If(~self._hpd_en.storage,
+                    data_drv_stop.eq(1),
+                    NextState("WAIT_START")
+                ))
-- 
2.43.0


From 0d5829c1e8e499c72e7c12440d64550219c82edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:02 +0000
Subject: [PATCH 17/21] fix: terminal lines and vertical sync have their
 documented length

---
 litevideo/terminal/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index 8aac296..96eef53 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -233,10 +233,14 @@ class Terminal(Module):
                 fx.eq(0),
                 text_addr.eq(text_addr_start)
             ),
-            If(pixel_counter == H_FRONT_PORCH,
+            If(pixel_counter == H_FRONT_PORCH - 1,
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
+                If(line_counter == V_FRONT_PORCH - 1,
+                    # End of image
+                    line_counter.eq(0)
+                ),
 
                 # Font height is 16 pixels
                 fline.eq(fline + 1),
@@ -252,10 +256,6 @@ class Terminal(Module):
             ).Elif(line_counter < V_BACK_PORCH,
                 vsync.eq(1)
             ),
-            If(line_counter == V_FRONT_PORCH,
-                # End of image
-                line_counter.eq(0)
-            ),
             If(line_counter == V_BACK_PORCH - 1,
                 # Prepare generating next image data
                 fline.eq(0),
-- 
2.43.0


From 259f43b3bb81834b0a3058d861f9981f8972665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:06 +0000
Subject: [PATCH 18/21] fix: raw output mode lost step with memory by one word
 per frame

---
 litevideo/output/core.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index c11cc0b..f55d681 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -223,6 +223,18 @@ class VideoOutCore(Module, AutoCSR):
             self.submodules.timing = timing = ClockDomainsRenamer(cd)(TimingGenerator(genlock_stream))
         self.submodules.dma = dma = ClockDomainsRenamer(cd)(DMAReader(dram_port, fifo_depth, genlock_stream))
 
+        # in raw mode every beat carries a word, blanking included (from the first position of the raster on)
+        raw_active = Signal()
+        if mode == "raw":
+            sync = getattr(self.sync, cd)
+            sync += [
+                If(~initiator.source.valid,
+                    raw_active.eq(0)
+                ).Elif(source.valid & source.ready,
+                    raw_active.eq(1)
+                )
+            ]
+
         # ctrl path
         self.comb += timing.sink.valid.eq(initiator.source.valid) # if the CSR FIFO data is valid, timing may proceed
 
@@ -232,7 +244,7 @@ class VideoOutCore(Module, AutoCSR):
             initiator.source.ready.eq(timing.sink.ready), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
 
             # combine timing and dma
-            source.valid.eq(timing.source.valid & (~timing.source.de | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or de is low)
+            source.valid.eq(timing.source.valid & (~(timing.source.de | raw_active) | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or de is low)
               # the "or de is low" thing seems like a hack to fix some edge case??
             # flush dma/timing when disabled
             If(~initiator.source.valid,  # if the initiator's (e.g. CSR) outputs aren't valid
@@ -240,7 +252,7 @@ class VideoOutCore(Module, AutoCSR):
                 dma.source.ready.eq(1)
             ).Elif(source.valid & source.ready, # else if our DMA output stream has valid data, and is ready to accept addresses
                 timing.source.ready.eq(1),  # output stream of timing is ready to go, which kicks off the timing generator...
-                dma.source.ready.eq(timing.source.de | (mode == "raw"))  # and the DMA's DMAReader source ready is tied to the timing's DE signal
+                dma.source.ready.eq(timing.source.de | raw_active)  # and the DMA's DMAReader source ready is tied to the timing's DE signal
             )
         ]
 
-- 
2.43.0


From 04cfd63de351dc5343a37c7d75d8b17fae77203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:51 +0000
Subject: [PATCH 19/21] fix: test patterns advance with the pixels accepted

---
 litevideo/output/pattern.py | 62 +++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/litevideo/output/pattern.py b/litevideo/output/pattern.py
index 63da58b..eac9c3c 100644
--- a/litevideo/output/pattern.py
+++ b/litevideo/output/pattern.py
@@ -17,16 +17,16 @@ class ColorBarsPattern(Module):
         # ctrl
         pix = Signal(hbits)
         bar = Signal(3)
+        advance = Signal() # a pixel is presented until it is accepted
+        self.comb += advance.eq(sink.valid & (~source.valid | source.ready))
         self.sync += [
-            If(sink.valid,
+            If(advance,
                 source.valid.eq(1),
-                If(source.ready,
-                    If(pix == (sink.hres[3:]-1),
-                        pix.eq(0),
-                        bar.eq(bar + 1)
-                    ).Else(
-                        pix.eq(pix + 1)
-                    )
+                If(pix == (sink.hres[3:]-1),
+                    pix.eq(0),
+                    bar.eq(bar + 1)
+                ).Else(
+                    pix.eq(pix + 1)
                 )
             )
         ]
@@ -50,7 +50,7 @@ class ColorBarsPattern(Module):
                 source.g.eq(color_bar[i][1]),
                 source.b.eq(color_bar[i][2])
             ]
-        self.sync += Case(bar, cases)
+        self.sync += If(advance, Case(bar, cases))
 
 
 class VerticalLinesPattern(Module):
@@ -64,11 +64,9 @@ class VerticalLinesPattern(Module):
 
         parity = Signal()
         self.sync += [
-            If(sink.valid,
+            If(sink.valid & (~source.valid | source.ready), # a pixel is presented until it is accepted
                 source.valid.eq(1),
-                If(source.ready,
-                    parity.eq(~parity)
-                ),
+                parity.eq(~parity),
                 If(parity,
                     source.r.eq(255),
                     source.g.eq(255),
@@ -94,27 +92,25 @@ class DotsPattern(Module):
         h = Signal(hbits)
         parity = Signal()
         self.sync += [
-            If(sink.valid,
+            If(sink.valid & (~source.valid | source.ready), # a pixel is presented until it is accepted
                 source.valid.eq(1),
-                If(source.ready,
-                    If(h == (sink.hres-1),
-                        # don't change parity:
-                        # next line pixel will
-                        # be swapped.
-                        h.eq(0)
-                    ).Else(
-                        h.eq(h+1),
-                        parity.eq(~parity)
-                    )
+                If(h == (sink.hres-1),
+                    # don't change parity:
+                    # next line pixel will
+                    # be swapped.
+                    h.eq(0)
+                ).Else(
+                    h.eq(h+1),
+                    parity.eq(~parity)
+                ),
+                If(parity,
+                    source.r.eq(255),
+                    source.g.eq(255),
+                    source.b.eq(255)
+                ).Else(
+                    source.r.eq(0),
+                    source.g.eq(0),
+                    source.b.eq(0)
                 )
-            ),
-            If(parity,
-                source.r.eq(255),
-                source.g.eq(255),
-                source.b.eq(255)
-            ).Else(
-                source.r.eq(0),
-                source.g.eq(0),
-                source.b.eq(0)
             )
         ]
-- 
2.43.0


From 248298e3417b46e5a8f5f9562b9ba2b95a41bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 20/21] fix: VGA colours are black during blanking

---
 litevideo/output/driver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/driver.py b/litevideo/output/driver.py
index dccc9ee..c7fca4f 100644
--- a/litevideo/output/driver.py
+++ b/litevideo/output/driver.py
@@ -29,9 +29,11 @@ class VGAPHY(Module):
             self.sink.ready.eq(1),
             pads.hsync_n.eq(~self.sink.hsync),
             pads.vsync_n.eq(~self.sink.vsync),
-            pads.r.eq(self.sink.r[8-len(pads.r):]),
-            pads.g.eq(self.sink.g[8-len(pads.g):]),
-            pads.b.eq(self.sink.b[8-len(pads.b):]),
+            If(self.sink.de, # black (clamp level) during blanking
+                pads.r.eq(self.sink.r[8-len(pads.r):]),
+                pads.g.eq(self.sink.g[8-len(pads.g):]),
+                pads.b.eq(self.sink.b[8-len(pads.b):])
+            ),
             pads.psave_n.eq(1)
         ]
 
-- 
2.43.0


From 35d88fdfe3d0183155d028f951943b5c5ae96ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 21/21] fix: Spartan 6 output clocking accepts a single-ended
 clock pad

---
 litevideo/output/hdmi/s6.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/hdmi/s6.py b/litevideo/output/hdmi/s6.py
index 10f9b3a..a25b982 100644
--- a/litevideo/output/hdmi/s6.py
+++ b/litevideo/output/hdmi/s6.py
@@ -170,14 +170,15 @@ class S6HDMIOutClocking(Module, AutoCSR):
 
         # Drive HDMI clock pads
         hdmi_clk_se = Signal()
+        inverted = hasattr(getattr(pads, "clk_p", None), "inverted") # pads may be single-ended
         self.specials += Instance("ODDR2",
                                   p_DDR_ALIGNMENT="NONE", p_INIT=0, p_SRTYPE="SYNC",
                                   o_Q=hdmi_clk_se,
                                   i_C0=ClockSignal("pix"),
                                   i_C1=~ClockSignal("pix"),
                                   i_CE=1,
-                                  i_D0=not hasattr(pads.clk_p, "inverted"),
-                                  i_D1=hasattr(pads.clk_p, "inverted"),
+                                  i_D0=not inverted,
+                                  i_D1=inverted,
                                   i_R=0, i_S=0)
         if hasattr(pads, "clk_p"):
             self.specials += Instance("OBUFDS", i_I=hdmi_clk_se,
-- 
2.43.0

