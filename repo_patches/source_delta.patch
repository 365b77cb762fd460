From 9fbaed46e5d637ad0aeac1a17b0f9c375d2224b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 01/29] fix: RGB2RGB16f: detect the leading one on 8 bits,
 clear the sign bit, convert 0 to 0.0

---
 litevideo/csc/rgb2rgb16f.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/litevideo/csc/rgb2rgb16f.py b/litevideo/csc/rgb2rgb16f.py
index f5c3a1c..fadf358 100644
--- a/litevideo/csc/rgb2rgb16f.py
+++ b/litevideo/csc/rgb2rgb16f.py
@@ -105,14 +105,16 @@ class PIX2PIXFDatapath(Module):
 
         lshift = Signal(4)
         frac_val = Signal(10)
+        zero = Signal()
 
-        self.submodules.l1 = LeadOne(12)
+        self.submodules.l1 = LeadOne(8)
         self.comb += self.l1.datai.eq(sink.pix)
 
         self.sync += [
             lshift.eq(self.l1.leadone),
             frac_val[3:].eq(sink.pix[:7]),
-            frac_val[:3].eq(0)
+            frac_val[:3].eq(0),
+            zero.eq(sink.pix == 0)
         ]
 
         # Stage 2
@@ -122,7 +124,8 @@ class PIX2PIXFDatapath(Module):
         self.sync += [
             source.pixf[:10].eq(frac_val << lshift),
             source.pixf[10:15].eq(15 - 1 - lshift),
-            source.pixf[15].eq(1)
+            source.pixf[15].eq(0),
+            If(zero, source.pixf.eq(0)) # zero has no leading one
         ]
 
 class RGB2RGB16f(PipelinedActor, Module):
-- 
2.43.0


From 2505f4a0e9834d84cbb92e1b6f92a4e528981bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 02/29] fix: RGB16f2RGB: saturate 1.0 to the maximum pixel
 value

---
 litevideo/csc/rgb16f2rgb.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/litevideo/csc/rgb16f2rgb.py b/litevideo/csc/rgb16f2rgb.py
index 5bcf4a7..142cfcc 100644
--- a/litevideo/csc/rgb16f2rgb.py
+++ b/litevideo/csc/rgb16f2rgb.py
@@ -37,17 +37,26 @@ class PIXF2PIXDatapath(Module):
         frac = Signal(11)
         exp = Signal(5)
         exp_offset = Signal(5)
+        overflow = Signal()
 
         self.sync += [
             exp_offset.eq(15 - sink.pixf[10:15] - 1),
             frac[:10].eq(sink.pixf[:10]),
-            frac[10].eq(1)
+            frac[10].eq(1),
+            overflow.eq(sink.pixf[10:15] >= 15)
         ]
 
         # Stage 2
         # Right shift frac by exp_offset
         # Most significant 8 bits of frac assigned to uint8 pix
-        self.sync += source.pix.eq( (frac >> exp_offset)[3:])
+        # 1.0 saturates to the maximum pixel value
+        self.sync += [
+            If(overflow,
+                source.pix.eq(2**pix_w - 1)
+            ).Else(
+                source.pix.eq((frac >> exp_offset)[3:])
+            )
+        ]
 
 
 class RGB16f2RGB(PipelinedActor, Module):
-- 
2.43.0


From 96cef9c45da08e5550014339cb644d8c93a2ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:50 +0000
Subject: [PATCH 03/29] fix: FloatAdd: correct exponent difference with a
 subnormal operand, zero and subnormal sums

---
 litevideo/float_arithmetic/floatadd.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index f02ffdf..3407239 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -99,7 +99,7 @@ class FloatAddDatapath(Module):
         in2_exp_stage1 = Signal(5)
 
         self.sync += [
-            in1_minus_in2_exp.eq(in1_exp1 - in2_exp),
+            in1_minus_in2_exp.eq(in1_exp1 - in2_exp1),
             in1_frac_stage1.eq(in1_mant),
             in2_frac_stage1.eq(in2_mant),
             in1_exp_stage1.eq(in1_exp1),
@@ -158,8 +158,14 @@ class FloatAddDatapath(Module):
         out_exp_stage4 = Signal(5)
         out_4 = Signal(16)
         self.sync += [
-            out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
-            out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1),
+            If((in1_plus_in2_frac == 0) | (leadone > in1_minus_in2_exp_stage3),
+                # zero or subnormal: the leading one can't be shifted in place
+                out_frac_stage4.eq(in1_plus_in2_frac << in1_minus_in2_exp_stage3),
+                out_exp_stage4.eq(0)
+            ).Else(
+                out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
+                out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1)
+            ),
             out_sign_stage4.eq(in1_plus_in2_sign),
             out_4.eq(out_frac_stage4)
         ]
-- 
2.43.0


From a223f05186a31f8ac581b343fe9cf1560d0d472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:50 +0000
Subject: [PATCH 04/29] fix: FloatMult: use the aligned product in stage 4,
 correct subnormal results

---
 litevideo/float_arithmetic/floatmult.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index edd118e..550033a 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -137,12 +137,17 @@ class FloatMultDatapath(Module):
 
         self.sync += [
             out_status4.eq(out_status3),
-            If((out_exp3 - one_ptr) < 1,
+            If((out_exp3 - one_ptr) < 0,
+                # subnormal
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult >> (0 - out_exp3)) << 1))
+                If(out_exp3 < 0,
+                    out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
+                ).Else(
+                    out_mult_shift.eq(out_mult3 << (out_exp3 + 1))
+                )
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
-                out_mult_shift.eq(out_mult << one_ptr + 1)
+                out_mult_shift.eq(out_mult3 << one_ptr + 1)
             )
         ]
 
-- 
2.43.0


From 12db1d861298f1b1c02d0efd3cc1f9528bdaacb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 05/29] fix: FloatMult: sign of the product

---
 litevideo/float_arithmetic/floatmult.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index 550033a..d20eced 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -52,6 +52,7 @@ class FloatMultDatapath(Module):
 
         in1_sign = Signal()
         in2_sign = Signal()
+        out_sign1 = Signal()
 
         out_status1 = Signal(2)
         # 00-0 Zero
@@ -71,6 +72,8 @@ class FloatMultDatapath(Module):
         ]
 
         self.sync += [
+            out_sign1.eq(in1_sign ^ in2_sign),
+
             If(in1_exp == 0,
                 in1_mant.eq(Cat(in1_frac, 0)),
                 in1_exp1.eq(in1_exp + 1)
@@ -101,17 +104,20 @@ class FloatMultDatapath(Module):
         out_mult = Signal(22)
         out_exp = Signal((7, True))
         out_status2 = Signal(2)
+        out_sign2 = Signal()
 
         self.sync += [
             out_mult.eq(in1_mant * in2_mant),
             out_exp.eq(in1_exp1 + in2_exp1 - 15),
             out_status2.eq(out_status1),
+            out_sign2.eq(out_sign1)
         ]
 
         # stage 3
         # Leading one detector
         one_ptr = Signal(5)
         out_status3 = Signal(2)
+        out_sign3 = Signal()
         out_mult3 = Signal(22)
         out_exp3 = Signal((7, True))
 
@@ -124,6 +130,7 @@ class FloatMultDatapath(Module):
 
         self.sync += [
             out_status3.eq(out_status2),
+            out_sign3.eq(out_sign2),
             out_mult3.eq(out_mult),
             out_exp3.eq(out_exp),
             one_ptr.eq(lead_one_ptr)
@@ -134,9 +141,11 @@ class FloatMultDatapath(Module):
         out_exp_adjust = Signal((7, True))
         out_mult_shift = Signal(22)
         out_status4 = Signal(2)
+        out_sign4 = Signal()
 
         self.sync += [
             out_status4.eq(out_status3),
+            out_sign4.eq(out_sign3),
             If((out_exp3 - one_ptr) < 0,
                 # subnormal
                 out_exp_adjust.eq(0),
@@ -157,7 +166,7 @@ class FloatMultDatapath(Module):
             If(out_status4 == 0,
                 source.out.eq(0)
             ).Elif(out_status4 == 3,
-                source.out.eq(Cat(out_mult_shift[12:], out_exp_adjust[:5],0))
+                source.out.eq(Cat(out_mult_shift[12:], out_exp_adjust[:5], out_sign4))
             )
         ]
 
-- 
2.43.0


From e456d740a9de9dd77e17e07daa3cf8cee96e8288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:42 +0000
Subject: [PATCH 06/29] fix: YCbCr422to444: carry first/last to the source

---
 litevideo/csc/ycbcr422to444.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/litevideo/csc/ycbcr422to444.py b/litevideo/csc/ycbcr422to444.py
index ef4286a..cd698a3 100644
--- a/litevideo/csc/ycbcr422to444.py
+++ b/litevideo/csc/ycbcr422to444.py
@@ -27,6 +27,14 @@ class YCbCr422to444(Module):
         cr_fifo = stream.SyncFIFO([("data", dw)], 4)
         self.submodules += y_fifo, cb_fifo, cr_fifo
 
+        # packet delimiters follow the luma
+        self.comb += [
+            y_fifo.sink.first.eq(sink.first),
+            y_fifo.sink.last.eq(sink.last),
+            source.first.eq(y_fifo.source.first),
+            source.last.eq(y_fifo.source.last)
+        ]
+
         # input
         parity_in = Signal()
         self.sync += If(sink.valid & sink.ready, parity_in.eq(~parity_in))
-- 
2.43.0


From 7644790204947b95b6416aa1d45a088f01ae9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:42 +0000
Subject: [PATCH 07/29] fix: YCbCr444to422: restart the pairing on the first
 pixel of a packet

---
 litevideo/csc/ycbcr444to422.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/litevideo/csc/ycbcr444to422.py b/litevideo/csc/ycbcr444to422.py
index c82babe..d4c06e2 100644
--- a/litevideo/csc/ycbcr444to422.py
+++ b/litevideo/csc/ycbcr444to422.py
@@ -80,6 +80,8 @@ class YCbCr444to422(PipelinedActor, Module):
         self.submodules.datapath = YCbCr444to422Datapath(dw)
         PipelinedActor.__init__(self, self.datapath.latency)
         self.comb += self.datapath.ce.eq(self.pipe_ce)
+        # restart the pairing on the first pixel of a packet
+        self.comb += If(sink.valid & sink.first, self.datapath.first.eq(1))
         for name in ["y", "cb", "cr"]:
             self.comb += getattr(self.datapath.sink, name).eq(getattr(sink, name))
         for name in ["y", "cb_cr"]:
-- 
2.43.0


From 341ac13ebb4033811629e68768674217b7b09667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:31 +0000
Subject: [PATCH 08/29] fix: DecodeTERC4: raise data enable on the first pixel
 and drop it with the last

---
 litevideo/input/decoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index 6e607c3..0ae2e20 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -321,7 +321,7 @@ class DecodeTERC4(Module, AutoCSR):
                 self.encoding_terc4.eq(0),
                 self.encrypting_data.eq(0),
                 self.encrypting_video.eq(0),
-                self.de_hdmi.eq(0)
+                self.de_hdmi.eq(~all_vgb)  # the first pixel follows the guard band
                 )
         fsm.act("VIDEO",
                 If(any_cvalid,
@@ -332,5 +332,5 @@ class DecodeTERC4(Module, AutoCSR):
                 self.encoding_terc4.eq(0),
                 self.encrypting_data.eq(0),
                 self.encrypting_video.eq(1),
-                self.de_hdmi.eq(1)
+                self.de_hdmi.eq(~any_cvalid)
                 )
-- 
2.43.0


From faef321ec7fa526400d000c243f7af72403e0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:04 +0000
Subject: [PATCH 09/29] fix: FrameExtraction: do not emit the incomplete word
 of a frame as the next start of frame

---
 litevideo/input/analysis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 1bed19c..68727e5 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -197,8 +197,7 @@ class FrameExtraction(Module, AutoCSR):
             self.pack_counter = pack_counter = Signal(max=pack_factor)
             self.sync.pix += [
                 cur_word_valid.eq(0),
-                If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
+                If(new_frame, # drop the incomplete word of the previous frame, if any
                     pack_counter.eq(0),
                 ).Elif(chroma_downsampler.source.valid & de,
                     [If(pack_counter == (pack_factor-i-1),
@@ -221,8 +220,7 @@ class FrameExtraction(Module, AutoCSR):
             self.pack_counter = pack_counter = Signal(max=pack_factor)
             self.sync.pix += [
                 cur_word_valid.eq(0),
-                If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
+                If(new_frame, # drop the incomplete word of the previous frame, if any
                     pack_counter.eq(0),
                 ).Elif(self.valid_i & de,
                     [If(pack_counter == (pack_factor-i-1),
-- 
2.43.0


From b280e4cac9180b16b8990640ef6e1fdc55c95ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:35 +0000
Subject: [PATCH 10/29] fix: DMA: give the slots' events unique names

---
 litevideo/input/dma.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 1030e4a..897aacd 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -45,6 +45,7 @@ class _SlotArray(Module, AutoCSR):
         slots = [_Slot(addr_bits, alignment_bits) for i in range(nslots)]
         for n, slot in enumerate(slots):
             setattr(self.submodules, "slot"+str(n), slot)
+            slot.ev_source.name = "slot"+str(n) # event names have to be unique
             setattr(self.ev, "slot"+str(n), slot.ev_source)
         self.ev.finalize()
 
-- 
2.43.0


From e6c2b732621fa97003523fea7183d1d7beaf229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:51 +0000
Subject: [PATCH 11/29] fix: DMA: do not reselect the slot that has just been
 completed

---
 litevideo/input/dma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 897aacd..df0e915 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -51,7 +51,7 @@ class _SlotArray(Module, AutoCSR):
 
         change_slot = Signal()
         current_slot = Signal(max=nslots)
-        self.sync += If(change_slot, [If(slot.address_valid, current_slot.eq(n))
+        self.sync += If(change_slot, [If(slot.address_valid & ~slot.address_done, current_slot.eq(n))
                          for n, slot in reversed(list(enumerate(slots)))])
         self.comb += change_slot.eq(~self.address_valid | self.address_done)
 
-- 
2.43.0


From c4b8fc7ac8b9b9b8e57c5b59f8e85775043e04d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:57 +0000
Subject: [PATCH 12/29] fix: EDID: release SDA when a read is interrupted by
 disabling

---
 litevideo/input/edid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 04ccb15..9357e54 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -178,7 +178,9 @@ class EDID(Module, AutoCSR):
 
         self.submodules.fsm = fsm = FSM()
 
-        fsm.act("WAIT_START")
+        fsm.act("WAIT_START",
+            data_drv_stop.eq(1) # release SDA when a read is interrupted
+        )
         fsm.act("RCV_ADDRESS",
             If(counter == 8,
                 If(din[1:] == 0x50,
-- 
2.43.0


From f7738a7afbbc58c415508ee9e4dffcb67817e6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:37 +0000
Subject: [PATCH 13/29] fix: raw video output takes a memory word on every
 clock, so wait for it in blanking too

---
 litevideo/output/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 536bfb2..a9f5dcd 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -224,21 +224,24 @@ class VideoOutCore(Module, AutoCSR):
         # ctrl path
         self.comb += timing.sink.valid.eq(initiator.source.valid) # if the CSR FIFO data is valid, timing may proceed
 
+        # raw mode takes a word from memory on every clock, the other modes on active pixels only
+        data_needed = Signal()
+        self.comb += data_needed.eq(timing.source.de | (mode == "raw"))
+
         self.comb += [
             # dispatch initiator parameters to timing & dma
             dma.sink.valid.eq(initiator.source.valid),   # the DMA's parameter input "pushed" from the initiator, so connect the valids
             initiator.source.ready.eq(timing.sink.ready), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
 
             # combine timing and dma
-            source.valid.eq(timing.source.valid & (~timing.source.de | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or de is low)
-              # the "or de is low" thing seems like a hack to fix some edge case??
+            source.valid.eq(timing.source.valid & (~data_needed | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or not needed)
             # flush dma/timing when disabled
             If(~initiator.source.valid,  # if the initiator's (e.g. CSR) outputs aren't valid
                 timing.source.ready.eq(1), # force the outputs to 1 to keep the DMA running
                 dma.source.ready.eq(1)
             ).Elif(source.valid & source.ready, # else if our DMA output stream has valid data, and is ready to accept addresses
                 timing.source.ready.eq(1),  # output stream of timing is ready to go, which kicks off the timing generator...
-                dma.source.ready.eq(timing.source.de | (mode == "raw"))  # and the DMA's DMAReader source ready is tied to the timing's DE signal
+                dma.source.ready.eq(data_needed)  # and the DMA's DMAReader source ready is tied to the timing's DE signal
             )
         ]
 
-- 
2.43.0


From 0bd690afec7cae2def5e183521e0b700ff3ef012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:13 +0000
Subject: [PATCH 14/29] fix: video output drops what it fetched ahead when
 disabled, so the next start is aligned

---
 litevideo/output/core.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index a9f5dcd..520ceaa 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -56,6 +56,7 @@ class DMAReader(Module, AutoCSR):
         base = Signal(dram_port.aw)
         length = Signal(dram_port.aw)
         offset = Signal(dram_port.aw)
+        flush = Signal()
         self.delay_base = CSRStorage(32)
         self.comb += [
             base.eq(sink.base[shift:]),   # ignore the lower bits of the base + length to match the DMA's expectations
@@ -79,11 +80,16 @@ class DMAReader(Module, AutoCSR):
                        NextState("READ")
                     ).Else(
                         dram_port.flush.eq(1),
+                        If(self.dma.rsv_level != 0, # data fetched ahead is left over
+                            NextState("FLUSH")
+                        )
                     )
                 )
             fsm.act("READ",
-                self.dma.sink.valid.eq(1),  # tell the DMA reader that we've got a valid address for it
-                If(self.dma.sink.ready, # if the LiteDRAMDMAReader shows it's ready for an address (e.g. taken the current address)
+                self.dma.sink.valid.eq(sink.valid),  # tell the DMA reader that we've got a valid address for it
+                If(~sink.valid, # disabled: forget the frame that was being fetched ahead
+                    NextState("FLUSH")
+                ).Elif(self.dma.sink.ready, # if the LiteDRAMDMAReader shows it's ready for an address (e.g. taken the current address)
                     NextValue(offset, offset + 1), # increment the offset
                     If(offset == (length - 1),  # at the end...
                         self.sink.ready.eq(1),  # indicate we're ready for more parameters
@@ -91,6 +97,12 @@ class DMAReader(Module, AutoCSR):
                     )
                 )
             )
+            fsm.act("FLUSH",  # drop everything requested before the next frame starts
+                flush.eq(1),
+                If(self.dma.rsv_level == 0,
+                    NextState("IDLE")
+                )
+            )
         else:
             fsm.act("IDLE",
                 NextValue(offset, self.delay_base.storage),
@@ -118,7 +130,11 @@ class DMAReader(Module, AutoCSR):
 
         self.comb += [
             self.dma.sink.address.eq(base + offset),  # input to the DMA is an address of base + offset
-            self.dma.source.connect(self.source)      # connect the DMA's output to the output of this module
+            self.dma.source.connect(self.source),     # connect the DMA's output to the output of this module
+            If(flush,
+                self.source.valid.eq(0),
+                self.dma.source.ready.eq(1)
+            )
         ]
 
 
-- 
2.43.0


From 5a7f82707d827de1c8a8d274d36b9815331045d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:43 +0000
Subject: [PATCH 15/29] fix: genlocked video output restarts its reads at every
 start of frame

---
 litevideo/output/core.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 520ceaa..9910f45 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -97,12 +97,6 @@ class DMAReader(Module, AutoCSR):
                     )
                 )
             )
-            fsm.act("FLUSH",  # drop everything requested before the next frame starts
-                flush.eq(1),
-                If(self.dma.rsv_level == 0,
-                    NextState("IDLE")
-                )
-            )
         else:
             fsm.act("IDLE",
                 NextValue(offset, self.delay_base.storage),
@@ -120,14 +114,24 @@ class DMAReader(Module, AutoCSR):
                         self.sink.ready.eq(1),  # indicate we're ready for more parameters
                         NextState("WAIT_SOF")
                     )
+                ),
+                If(self.sof, # late: this frame is lost, start with the next one
+                    NextState("FLUSH")
                 )
             )
             fsm.act("WAIT_SOF",  # wait till vsync/start of frame
                 If(self.sof,
-                   NextState("IDLE")
+                   NextState("FLUSH")
                 )
             )
 
+        fsm.act("FLUSH",  # drop everything requested before the next frame starts
+            flush.eq(1),
+            If(self.dma.rsv_level == 0,
+                NextState("IDLE")
+            )
+        )
+
         self.comb += [
             self.dma.sink.address.eq(base + offset),  # input to the DMA is an address of base + offset
             self.dma.source.connect(self.source),     # connect the DMA's output to the output of this module
-- 
2.43.0


From a65ab3802d819c08b6db32d3d1e3f1ff3fe5c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:49 +0000
Subject: [PATCH 16/29] fix: delay the timing by the input register too in
 ycbcr422 video output

---
 litevideo/output/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/__init__.py b/litevideo/output/__init__.py
index 248efc4..32617ca 100644
--- a/litevideo/output/__init__.py
+++ b/litevideo/output/__init__.py
@@ -58,7 +58,8 @@ class VideoOut(Module, AutoCSR):
         elif mode == "ycbcr422":
             ycbcr422to444 = ClockDomainsRenamer(cd)(YCbCr422to444())
             ycbcr2rgb = ClockDomainsRenamer(cd)(YCbCr2RGB())
-            timing_delay = TimingDelay(ycbcr422to444.latency + ycbcr2rgb.latency)
+            # one more for the register in front of the converters
+            timing_delay = TimingDelay(1 + ycbcr422to444.latency + ycbcr2rgb.latency)
             timing_delay = ClockDomainsRenamer(cd)(timing_delay)
             self.submodules += ycbcr422to444, ycbcr2rgb, timing_delay
 
-- 
2.43.0


From bde9bd58b400c37893d782e4b492f5fcf307b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:49 +0000
Subject: [PATCH 17/29] fix: Spartan-6 output clocking can be built for pads
 without a differential clock

---
 litevideo/output/hdmi/s6.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/hdmi/s6.py b/litevideo/output/hdmi/s6.py
index 10f9b3a..1435c1c 100644
--- a/litevideo/output/hdmi/s6.py
+++ b/litevideo/output/hdmi/s6.py
@@ -169,6 +169,7 @@ class S6HDMIOutClocking(Module, AutoCSR):
             ]
 
         # Drive HDMI clock pads
+        clk_inverted = hasattr(getattr(pads, "clk_p", None), "inverted")
         hdmi_clk_se = Signal()
         self.specials += Instance("ODDR2",
                                   p_DDR_ALIGNMENT="NONE", p_INIT=0, p_SRTYPE="SYNC",
@@ -176,8 +177,8 @@ class S6HDMIOutClocking(Module, AutoCSR):
                                   i_C0=ClockSignal("pix"),
                                   i_C1=~ClockSignal("pix"),
                                   i_CE=1,
-                                  i_D0=not hasattr(pads.clk_p, "inverted"),
-                                  i_D1=hasattr(pads.clk_p, "inverted"),
+                                  i_D0=not clk_inverted,
+                                  i_D1=clk_inverted,
                                   i_R=0, i_S=0)
         if hasattr(pads, "clk_p"):
             self.specials += Instance("OBUFDS", i_I=hdmi_clk_se,
-- 
2.43.0


From 44ecea46b6f6d7ede6c746c3a9cce62ad306f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:49 +0000
Subject: [PATCH 18/29] fix: VGA output is black in blanking

---
 litevideo/output/driver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/driver.py b/litevideo/output/driver.py
index dccc9ee..9bafd41 100644
--- a/litevideo/output/driver.py
+++ b/litevideo/output/driver.py
@@ -29,9 +29,12 @@ class VGAPHY(Module):
             self.sink.ready.eq(1),
             pads.hsync_n.eq(~self.sink.hsync),
             pads.vsync_n.eq(~self.sink.vsync),
-            pads.r.eq(self.sink.r[8-len(pads.r):]),
-            pads.g.eq(self.sink.g[8-len(pads.g):]),
-            pads.b.eq(self.sink.b[8-len(pads.b):]),
+            # black in blanking
+            If(self.sink.de,
+                pads.r.eq(self.sink.r[8-len(pads.r):]),
+                pads.g.eq(self.sink.g[8-len(pads.g):]),
+                pads.b.eq(self.sink.b[8-len(pads.b):])
+            ),
             pads.psave_n.eq(1)
         ]
 
-- 
2.43.0


From 2653b62d23fa8de60d2f8e0cbadd9ff128aeec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:48 +0000
Subject: [PATCH 19/29] fix: test patterns hold the pixel a stalled consumer
 has not taken

---
 litevideo/output/pattern.py | 48 +++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/litevideo/output/pattern.py b/litevideo/output/pattern.py
index 63da58b..ab73587 100644
--- a/litevideo/output/pattern.py
+++ b/litevideo/output/pattern.py
@@ -20,7 +20,7 @@ class ColorBarsPattern(Module):
         self.sync += [
             If(sink.valid,
                 source.valid.eq(1),
-                If(source.ready,
+                If(source.ready | ~source.valid,
                     If(pix == (sink.hres[3:]-1),
                         pix.eq(0),
                         bar.eq(bar + 1)
@@ -50,7 +50,7 @@ class ColorBarsPattern(Module):
                 source.g.eq(color_bar[i][1]),
                 source.b.eq(color_bar[i][2])
             ]
-        self.sync += Case(bar, cases)
+        self.sync += If(source.ready | ~source.valid, Case(bar, cases))
 
 
 class VerticalLinesPattern(Module):
@@ -66,18 +66,18 @@ class VerticalLinesPattern(Module):
         self.sync += [
             If(sink.valid,
                 source.valid.eq(1),
-                If(source.ready,
-                    parity.eq(~parity)
-                ),
-                If(parity,
-                    source.r.eq(255),
-                    source.g.eq(255),
-                    source.b.eq(255)
-                ).Else(
-                    source.r.eq(0),
-                    source.g.eq(0),
-                    source.b.eq(0)
-               )
+                If(source.ready | ~source.valid,
+                    parity.eq(~parity),
+                    If(parity,
+                        source.r.eq(255),
+                        source.g.eq(255),
+                        source.b.eq(255)
+                    ).Else(
+                        source.r.eq(0),
+                        source.g.eq(0),
+                        source.b.eq(0)
+                    )
+                )
             )
         ]
 
@@ -96,7 +96,7 @@ class DotsPattern(Module):
         self.sync += [
             If(sink.valid,
                 source.valid.eq(1),
-                If(source.ready,
+                If(source.ready | ~source.valid,
                     If(h == (sink.hres-1),
                         # don't change parity:
                         # next line pixel will
@@ -108,13 +108,15 @@ class DotsPattern(Module):
                     )
                 )
             ),
-            If(parity,
-                source.r.eq(255),
-                source.g.eq(255),
-                source.b.eq(255)
-            ).Else(
-                source.r.eq(0),
-                source.g.eq(0),
-                source.b.eq(0)
+            If(source.ready | ~source.valid,
+                If(parity,
+                    source.r.eq(255),
+                    source.g.eq(255),
+                    source.b.eq(255)
+                ).Else(
+                    source.r.eq(0),
+                    source.g.eq(0),
+                    source.b.eq(0)
+                )
             )
         ]
-- 
2.43.0


From a9849e1dc4fdcaccb7c3fe1c58520ae9295942b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:15 +0000
Subject: [PATCH 20/29] fix: terminal lines are 800 clocks and the vertical
 counter wraps at the end of a line

---
 litevideo/terminal/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index 8aac296..96eef53 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -233,10 +233,14 @@ class Terminal(Module):
                 fx.eq(0),
                 text_addr.eq(text_addr_start)
             ),
-            If(pixel_counter == H_FRONT_PORCH,
+            If(pixel_counter == H_FRONT_PORCH - 1,
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
+                If(line_counter == V_FRONT_PORCH - 1,
+                    # End of image
+                    line_counter.eq(0)
+                ),
 
                 # Font height is 16 pixels
                 fline.eq(fline + 1),
@@ -252,10 +256,6 @@ class Terminal(Module):
             ).Elif(line_counter < V_BACK_PORCH,
                 vsync.eq(1)
             ),
-            If(line_counter == V_FRONT_PORCH,
-                # End of image
-                line_counter.eq(0)
-            ),
             If(line_counter == V_BACK_PORCH - 1,
                 # Prepare generating next image data
                 fline.eq(0),
-- 
2.43.0


From 63703bd0bfc642ad0771bdd7e81c164835a8a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 21/29] fix: output/core: clear syncs and last when a frame is
 withdrawn

---
 litevideo/output/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 9910f45..87f1e70 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -176,7 +176,10 @@ class TimingGenerator(Module):
                     hactive.eq(0),
                     vactive.eq(0),
                     hcounter.eq(0),
-                    vcounter.eq(0)
+                    vcounter.eq(0),
+                    source.hsync.eq(0),
+                    source.vsync.eq(0),
+                    source.last.eq(0)
                 ).Elif(source.ready,  # otherwise, if the thing downstream from us is ready...
                     source.last.eq(0),  # self.sync is blocking, so this will get over-ridden later as needed
                     hcounter.eq(hcounter + 1),
-- 
2.43.0


From cbb132f8e6de8dcc6e5f621c1c06b6256bb30ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:25 +0000
Subject: [PATCH 22/29] fix: empty the read side of the frame FIFO when the
 pixel clock is lost

---
 litevideo/input/analysis.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 68727e5..589455a 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -233,6 +233,7 @@ class FrameExtraction(Module, AutoCSR):
 
         # FIFO
         fifo = stream.AsyncFIFO(word_layout, fifo_depth)
+        fifo = ResetInserter(["read"])(fifo)
         fifo = ClockDomainsRenamer({"write": "pix", "read": "sys"})(fifo)
         self.submodules += fifo
         self.fifo = fifo
@@ -247,8 +248,13 @@ class FrameExtraction(Module, AutoCSR):
                 fifo.sink.sof.eq(0)
             )
 
+        # the write side is reset while the pixel clock is not locked, empty the read side as well
+        pix_reset = Signal()
+        self.specials += MultiReg(ResetSignal("pix", allow_reset_less=True), pix_reset)
         self.comb += [
-            fifo.source.connect(self.frame),
+            fifo.reset_read.eq(pix_reset),
+            fifo.source.connect(self.frame, omit={"valid"}),
+            self.frame.valid.eq(fifo.source.valid & ~pix_reset),
             self.busy.eq(0)
         ]
 
-- 
2.43.0


From 66a4f95097099e9fd72fd403c43c2f04ef51a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:23 +0000
Subject: [PATCH 23/29] fix: empty the queue of frame parameters when the pixel
 clock is lost

---
 litevideo/output/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 87f1e70..8f38385 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -26,10 +26,14 @@ class Initiator(Module, AutoCSR):
         # # #
 
         cdc = stream.AsyncFIFO(self.source.description, 4)
+        cdc = ResetInserter(["write"])(cdc)
         cdc = ClockDomainsRenamer({"write": "sys",
                                    "read": cd})(cdc)
         self.submodules += cdc
 
+        # the read side is reset while the pixel clock is not locked, empty the write side as well
+        self.specials += MultiReg(ResetSignal(cd, allow_reset_less=True), cdc.reset_write)
+
         self.enable = CSRStorage()
         for name, width in frame_parameter_layout + frame_dma_layout:
             setattr(self, name, CSRStorage(width, name=name, atomic_write=True))  # builds the CSR list
-- 
2.43.0


From d99fe81be25a3c6f8e42ec32f4e6aabcd43b0d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 24/29] fix: stop the frame transfer when its slot is withdrawn

A slot whose status software cleared in mid-frame was written on, and another
loaded slot was marked as completed at the end of the frame.
---
 litevideo/input/dma.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index df0e915..faf99d0 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -136,12 +136,22 @@ class DMA(Module):
                         NextState("EOF")
                     )
                 )
+            ),
+            If(~self._slot_array.address_valid,  # slot withdrawn
+                self.frame.ready.eq(0),
+                self._bus_accessor.sink.valid.eq(0),
+                count_word.eq(0),
+                NextState("WAIT_SOF")
             )
         )
         fsm.act("EOF",
             If(~dram_port.wdata.valid,
                 self._slot_array.address_done.eq(1),
                 NextState("WAIT_SOF")
+            ),
+            If(~self._slot_array.address_valid,  # slot withdrawn
+                self._slot_array.address_done.eq(0),
+                NextState("WAIT_SOF")
             )
         )
 
-- 
2.43.0


From de007e538b295f205a066a017ccea7a892bae171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 25/29] fix: a byte written after the offset is not an address

The EDID memory took a data byte of A0 or A1 for its own address without a
START, acknowledged it and drove SDA.
---
 litevideo/input/edid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 9357e54..4260a1b 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -229,7 +229,7 @@ class EDID(Module, AutoCSR):
         fsm.act("ACK_OFFSET2",
             zero_drv.eq(1),
             If(~scl_i,
-                NextState("RCV_ADDRESS")
+                NextState("WAIT_START")
             )
         )
 
-- 
2.43.0


From 73b04e8f0ee93c279c221b82fcf9e40b64cadc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:14 +0000
Subject: [PATCH 26/29] fix: colour bars of a width which is not a multiple of
 8 drift from line to line

---
 litevideo/output/pattern.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/pattern.py b/litevideo/output/pattern.py
index ab73587..86b6578 100644
--- a/litevideo/output/pattern.py
+++ b/litevideo/output/pattern.py
@@ -17,15 +17,25 @@ class ColorBarsPattern(Module):
         # ctrl
         pix = Signal(hbits)
         bar = Signal(3)
+        h = Signal(hbits)
         self.sync += [
             If(sink.valid,
                 source.valid.eq(1),
                 If(source.ready | ~source.valid,
                     If(pix == (sink.hres[3:]-1),
                         pix.eq(0),
-                        bar.eq(bar + 1)
+                        # last bar takes the
+                        # rest of the line
+                        If(bar != 7, bar.eq(bar + 1))
                     ).Else(
                         pix.eq(pix + 1)
+                    ),
+                    If(h == (sink.hres-1),
+                        h.eq(0),
+                        pix.eq(0),
+                        bar.eq(0)
+                    ).Else(
+                        h.eq(h + 1)
                     )
                 )
             )
-- 
2.43.0


From 4a8e86007ff5470d609a100cf9314315f97afeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:31 +0000
Subject: [PATCH 27/29] fix: align the start of a frame and of a line with the
 converted pixels

---
 litevideo/input/analysis.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 589455a..5cbbf52 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -149,12 +149,8 @@ class FrameExtraction(Module, AutoCSR):
 
         # # #
 
-        # start of frame detection
         vsync = self.vsync
-        vsync_r = Signal()
         self.new_frame = new_frame = Signal()
-        self.comb += new_frame.eq(vsync & ~vsync_r)
-        self.sync.pix += vsync_r.eq(vsync)
 
         if mode == "ycbcr422":
             de_r = Signal()
@@ -170,11 +166,16 @@ class FrameExtraction(Module, AutoCSR):
                 rgb2ycbcr.sink.g.eq(self.g),
                 rgb2ycbcr.sink.b.eq(self.b),
                 rgb2ycbcr.source.connect(chroma_downsampler.sink),
-                chroma_downsampler.source.ready.eq(1),
-                chroma_downsampler.datapath.first.eq(self.de & ~de_r) # XXX need clean up
+                chroma_downsampler.source.ready.eq(1)
             ]
             # XXX need clean up
             de = self.de
+            first = self.de & ~de_r
+            for i in range(rgb2ycbcr.latency):
+                next_first = Signal()
+                self.sync.pix += next_first.eq(first)
+                first = next_first
+            self.comb += chroma_downsampler.datapath.first.eq(first)
             for i in range(rgb2ycbcr.latency + chroma_downsampler.latency):
                 next_de = Signal()
                 next_vsync = Signal()
@@ -231,6 +232,11 @@ class FrameExtraction(Module, AutoCSR):
             ]
 
 
+        # start of frame detection
+        vsync_r = Signal()
+        self.comb += new_frame.eq(vsync & ~vsync_r)
+        self.sync.pix += vsync_r.eq(vsync)
+
         # FIFO
         fifo = stream.AsyncFIFO(word_layout, fifo_depth)
         fifo = ResetInserter(["read"])(fifo)
-- 
2.43.0


From 67990537e836acdb20695c1d003fe96d802f9b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:58 +0000
Subject: [PATCH 28/29] fix: video output drops the prefetched frame behind a
 width converter too

---
 litevideo/output/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 8f38385..d468e14 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -131,6 +131,7 @@ class DMAReader(Module, AutoCSR):
 
         fsm.act("FLUSH",  # drop everything requested before the next frame starts
             flush.eq(1),
+            dram_port.flush.eq(1), # including what a width converter is still collecting
             If(self.dma.rsv_level == 0,
                 NextState("IDLE")
             )
-- 
2.43.0


From 5b7a6988bf8932f07f3535e631ae36d8a4078ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:36 +0000
Subject: [PATCH 29/29] fix: genlocked video output gets the last words of its
 frames from a width converter too

---
 litevideo/output/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index d468e14..36b3e5e 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -124,6 +124,7 @@ class DMAReader(Module, AutoCSR):
                 )
             )
             fsm.act("WAIT_SOF",  # wait till vsync/start of frame
+                dram_port.flush.eq(1), # the end of the frame may leave a width converter half full
                 If(self.sof,
                    NextState("FLUSH")
                 )
-- 
2.43.0

