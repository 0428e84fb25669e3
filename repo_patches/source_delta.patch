From ea81b3effa7db53b5def975ef23c0b7a178f5fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:20 +0000
Subject: [PATCH 01/23] verif: cfg(divans_verif)-guarded include points for
 verification harness hooks

---
 src/alloc_util.rs            | 1 +
 src/ans.rs                   | 1 +
 src/cmd_to_raw/mod.rs        | 1 +
 src/codec/copy.rs            | 1 +
 src/codec/decoder.rs         | 1 +
 src/codec/interface.rs       | 1 +
 src/codec/mod.rs             | 1 +
 src/codec/weights.rs         | 1 +
 src/divans_compressor.rs     | 1 +
 src/divans_decompressor.rs   | 1 +
 src/ffi/alloc_util.rs        | 1 +
 src/lib.rs                   | 1 +
 src/mux.rs                   | 1 +
 src/probability/interface.rs | 1 +
 src/raw_to_cmd/mod.rs        | 1 +
 src/reader.rs                | 1 +
 src/resizable_buffer.rs      | 1 +
 src/writer.rs                | 1 +
 18 files changed, 18 insertions(+)

diff --git a/src/alloc_util.rs b/src/alloc_util.rs
index cde5379..c0bb7f7 100644
--- a/src/alloc_util.rs
+++ b/src/alloc_util.rs
@@ -245,3 +245,4 @@ mod test {
         assert_eq!(cached_alloc.alloc.get_base_alloc().count_free_cell, 5);
     }
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/alloc_util.rs"));
diff --git a/src/ans.rs b/src/ans.rs
index 452e4a7..c965127 100644
--- a/src/ans.rs
+++ b/src/ans.rs
@@ -483,3 +483,4 @@ impl<AllocU8: Allocator<u8>> ArithmeticEncoderOrDecoder for ANSEncoder<AllocU8>
 impl BillingCapability for ANSDecoder {
 }
 
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/ans.rs"));
diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 52b03cb..a200a66 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -410,3 +410,4 @@ impl<RingBuffer:SliceWrapperMut<u8> + SliceWrapper<u8> + Default> Compressor for
         DivansOutputResult::Success
     }
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/cmd_to_raw.rs"));
diff --git a/src/codec/copy.rs b/src/codec/copy.rs
index ebe5d2f..a38fa9b 100644
--- a/src/codec/copy.rs
+++ b/src/codec/copy.rs
@@ -285,3 +285,4 @@ impl CopyState {
         }
     }
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/codec_copy.rs"));
diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 6bd30dd..6e9377e 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -468,3 +468,4 @@ pub enum DecoderResult {
     Processed(DivansResult),
     Yield,
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/decoder.rs"));
diff --git a/src/codec/interface.rs b/src/codec/interface.rs
index 79fd45c..1dcf9b7 100644
--- a/src/codec/interface.rs
+++ b/src/codec/interface.rs
@@ -1018,3 +1018,4 @@ pub struct CodecSnapshot {
     distance_lru:[u32;4],
     last_8_literals: u64,
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/codec_interface.rs"));
diff --git a/src/codec/mod.rs b/src/codec/mod.rs
index 00fd7fb..89981cd 100755
--- a/src/codec/mod.rs
+++ b/src/codec/mod.rs
@@ -1024,3 +1024,4 @@ impl<AllocU8: Allocator<u8>,
     }
 }
 
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/codec.rs"));
diff --git a/src/codec/weights.rs b/src/codec/weights.rs
index 9f9d520..f27c567 100644
--- a/src/codec/weights.rs
+++ b/src/codec/weights.rs
@@ -131,3 +131,4 @@ fn compute_new_weight(probs: [Prob; 2],
     //print!("{} -> {} due to {:?} vs {}\n", wi as f64 / (weights[0] + weights[1]) as f64, (wi + new_weight_adj) as f64 /(weights[0] as i64 + new_weight_adj as i64 + weights[1] as i64) as f64, probs[index], weighted_prob);
     core::cmp::max(1,wi.wrapping_add(new_weight_adj) as i32)
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/weights.rs"));
diff --git a/src/divans_compressor.rs b/src/divans_compressor.rs
index 34a8dd4..2bfa4c4 100644
--- a/src/divans_compressor.rs
+++ b/src/divans_compressor.rs
@@ -426,3 +426,4 @@ impl<DefaultEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
     }
 }
 
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/compressor.rs"));
diff --git a/src/divans_decompressor.rs b/src/divans_decompressor.rs
index 2e7febd..401b0dd 100644
--- a/src/divans_decompressor.rs
+++ b/src/divans_decompressor.rs
@@ -467,3 +467,4 @@ impl<AllocU8:Allocator<u8>,
     for DivansDecompressorFactoryStruct<AllocU8, AllocCDF16, AllocCommand> {
      type DefaultDecoder = DefaultDecoderType!();
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/decompressor.rs"));
diff --git a/src/ffi/alloc_util.rs b/src/ffi/alloc_util.rs
index 87d02f2..abc77c9 100644
--- a/src/ffi/alloc_util.rs
+++ b/src/ffi/alloc_util.rs
@@ -219,3 +219,4 @@ pub fn alloc_stdlib<T:Sized+Default+Copy+Clone>(size: usize) -> *mut T {
     let _box_ptr = Box::into_raw(newly_allocated);
     slice_ptr
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/ffi_alloc.rs"));
diff --git a/src/lib.rs b/src/lib.rs
index 54137db..7180d10 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -121,3 +121,4 @@ pub use divans_decompressor::{DivansDecompressor,
                               DivansDecompressorFactory,
                               DivansDecompressorFactoryStruct,
                               StaticCommand};
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/root.rs"));
diff --git a/src/mux.rs b/src/mux.rs
index 6c65372..0f82ed7 100644
--- a/src/mux.rs
+++ b/src/mux.rs
@@ -647,3 +647,4 @@ impl<AllocU8:Allocator<u8> > StreamMuxer<AllocU8> for DevNull<AllocU8> {
     }
     fn can_linearize() -> bool {false}
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/mux.rs"));
diff --git a/src/probability/interface.rs b/src/probability/interface.rs
index af7c3aa..eac1e56 100644
--- a/src/probability/interface.rs
+++ b/src/probability/interface.rs
@@ -615,3 +615,4 @@ mod test {
         tst_u8_to_speed(1664);
     }
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/probability.rs"));
diff --git a/src/raw_to_cmd/mod.rs b/src/raw_to_cmd/mod.rs
index d01ac94..ae5fb27 100644
--- a/src/raw_to_cmd/mod.rs
+++ b/src/raw_to_cmd/mod.rs
@@ -183,3 +183,4 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>, AllocU32:Allocator<u32>
         self.hash_match.free(m32);
     }
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/raw_to_cmd.rs"));
diff --git a/src/reader.rs b/src/reader.rs
index a1149e1..ecb20c2 100755
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -542,3 +542,4 @@ mod test {
                        310000);
     }
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/reader.rs"));
diff --git a/src/resizable_buffer.rs b/src/resizable_buffer.rs
index e7708dc..9bd29f8 100644
--- a/src/resizable_buffer.rs
+++ b/src/resizable_buffer.rs
@@ -61,3 +61,4 @@ impl<T:Sized+Default+Clone, AllocT: Allocator<T>> ResizableByteBuffer<T, AllocT>
         allocator.free_cell(core::mem::replace(&mut self.data, AllocT::AllocatedMemory::default()))
     }
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/resizable_buffer.rs"));
diff --git a/src/writer.rs b/src/writer.rs
index 7806913..1f52661 100755
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -512,3 +512,4 @@ mod test {
                        3);
     }
 }
+#[cfg(divans_verif)] include!(concat!(env!("DIVANS_VERIF_HOOKS"), "/writer.rs"));
-- 
2.43.0


From ed28dc2a9caadf8c0ce073cecd113bed80dfb162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 02/23] fix: keep the speed <-> 8-bit float conversion exact
 for speeds of 12288 and above

The mantissa was computed in 16 bits and overflowed for 12288..16383, so
such a speed was transmitted as garbage.
---
 src/probability/interface.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/probability/interface.rs b/src/probability/interface.rs
index eac1e56..795362f 100644
--- a/src/probability/interface.rs
+++ b/src/probability/interface.rs
@@ -566,7 +566,7 @@ mod test {
 pub fn speed_to_u8(data: i16) -> u8 {
     let length = 16 - data.leading_zeros() as u8;
     let mantissa = if data != 0 {
-        let rem = data - (1 << (length - 1));
+        let rem = i32::from(data) - (1 << (length - 1));
         (rem << 3) >> (length - 1)
     } else {
         0
@@ -579,8 +579,8 @@ pub fn u8_to_speed(data: u8) -> i16 {
         0
     } else {
         let log_val = (data >> 3) - 1;
-        let rem = (i16::from(data) & 0x7) << log_val;
-        (1i16 << log_val) | (rem >> 3)
+        let rem = (i32::from(data) & 0x7) << log_val;
+        (1i16 << log_val) | (rem >> 3) as i16
     }
 }
 #[cfg(test)]
-- 
2.43.0


From 070cb89370d897f1e102298e862eec5c548f7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 03/23] fix: only wrap the raw input ring buffer once it is
 filled to its end

Wrapping whenever anything had been emitted dropped the input between the
write position and the end of the buffer.
---
 src/raw_to_cmd/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_to_cmd/mod.rs b/src/raw_to_cmd/mod.rs
index ae5fb27..97fc777 100644
--- a/src/raw_to_cmd/mod.rs
+++ b/src/raw_to_cmd/mod.rs
@@ -66,7 +66,7 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>, AllocU32:Allocator<u32>
             self.ring_buffer.slice_mut()[(self.ring_buffer_decode_index as usize)..(self.ring_buffer_decode_index as usize + max_copy)].clone_from_slice(&input[*input_offset..(*input_offset + max_copy)]);
             *input_offset += max_copy;
             self.ring_buffer_decode_index += max_copy as u32;
-            if self.ring_buffer_output_index != 0 {
+            if self.ring_buffer_output_index != 0 && self.ring_buffer_decode_index as usize == self.ring_buffer.slice().len() {
                self.ring_buffer_decode_index = 0;
             }
         }
-- 
2.43.0


From 87b77e2d6a5c64e6458a9c206bf30e03fd2691b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 04/23] fix: grow a ResizableByteBuffer to at least the
 requested free space

---
 src/resizable_buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resizable_buffer.rs b/src/resizable_buffer.rs
index 9bd29f8..ddcf2e8 100644
--- a/src/resizable_buffer.rs
+++ b/src/resizable_buffer.rs
@@ -34,9 +34,9 @@ impl<T:Sized+Default+Clone, AllocT: Allocator<T>> ResizableByteBuffer<T, AllocT>
     }
     fn ensure_free_space_in_buffer(&mut self, allocator: &mut AllocT, min_size: usize) {
         if self.data.slice().is_empty() {
-            self.data = allocator.alloc_cell(66_000); // some slack room to deal with worst case compression sizes
+            self.data = allocator.alloc_cell(core::cmp::max(66_000, min_size)); // some slack room to deal with worst case compression sizes
         } else if self.size + min_size > self.data.slice().len() {
-            let mut cell = allocator.alloc_cell(self.size * 2);
+            let mut cell = allocator.alloc_cell(core::cmp::max(self.size * 2, self.size + min_size));
             cell.slice_mut().split_at_mut(self.size).0.clone_from_slice(self.data.slice().split_at(self.size).0);
             allocator.free_cell(core::mem::replace(&mut self.data, cell));
         }
-- 
2.43.0


From 776ae1081fd878904277764596cb647922835bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 05/23] fix: reject copy distances of zero or of the whole
 window and beyond

Distance zero divided by zero, a distance equal to the ring buffer looped
forever and larger ones panicked or copied unrelated bytes.
---
 src/cmd_to_raw/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index a200a66..9798d4d 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -243,6 +243,12 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     }
     #[inline(always)]
     fn parse_copy(&mut self, copy:&CopyCommand) -> DivansOutputResult {
+        if copy.distance == 0 {
+            return DivansOutputResult::Failure(ErrMsg::Distance0NotAllowed);
+        }
+        if copy.distance as usize >= self.ring_buffer.slice().len() {
+            return DivansOutputResult::Failure(ErrMsg::DistanceGreaterRingBuffer);
+        }
         let num_bytes_left_in_cmd = copy.num_bytes - self.state.input_sub_offset as u32;
         if copy.distance <= REPEAT_BUFFER_MAX_SIZE && num_bytes_left_in_cmd > copy.distance {
             let num_bytes_to_copy = core::cmp::min(num_bytes_left_in_cmd,
-- 
2.43.0


From 4142e31dd792b7258b5fc29539529e8b04bbc965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 06/23] fix: hybrid compressor at quality 0 or 1 no longer
 drops its whole input

---
 src/brotli_ir_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 13fe93c..bba8f3f 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -391,7 +391,7 @@ impl<AllocU8:Allocator<u8>,
                                                        opt.lgblock.unwrap_or(18));
         brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                        brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_QUALITY,
-                                                       u32::from(opt.quality.unwrap_or(10)));
+                                                       u32::from(max(2, opt.quality.unwrap_or(10)))); // qualities 0 and 1 bypass the metablock callback
         if opt.q9_5 {
             brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                        brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_Q9_5,
-- 
2.43.0


From 09bafed68d8acd38f7be696be5b5a40e43bea945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 07/23] fix: a copy after a zero-length literal no longer
 overflows in the copy count prior

---
 src/codec/copy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/copy.rs b/src/codec/copy.rs
index a38fa9b..fae1d68 100644
--- a/src/codec/copy.rs
+++ b/src/codec/copy.rs
@@ -85,7 +85,7 @@ impl CopyState {
                     self.state = CopySubstate::CountSmall;
                 },
                 CopySubstate::CountSmall => {
-                    let index = ((superstate.bk.last_4_states >> 4) & 3) as usize + 4 * core::cmp::min(superstate.bk.last_llen - 1, 3) as usize;
+                    let index = ((superstate.bk.last_4_states >> 4) & 3) as usize + 4 * core::cmp::min(superstate.bk.last_llen.wrapping_sub(1), 3) as usize;
                     let mut shortcut_nib = core::cmp::min(15, in_cmd.num_bytes) as u8;
                     let ctype = superstate.bk.get_command_block_type();
                     let mut nibble_prob = superstate.bk.copy_priors.get(
-- 
2.43.0


From 489d1f05363ac47e8eb699c44f9ad0702bbb1ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 08/23] fix: encoding an empty list of commands no longer
 panics

---
 src/divans_compressor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/divans_compressor.rs b/src/divans_compressor.rs
index 2bfa4c4..a0a98d2 100644
--- a/src/divans_compressor.rs
+++ b/src/divans_compressor.rs
@@ -348,6 +348,9 @@ impl<DefaultEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                 res => return res,
             }
         }
+        if *input_offset == input.len() {
+            return DivansOutputResult::Success;
+        }
         let mut unused: usize = 0;
         match self.codec.encode_or_decode(&[],
                                     &mut unused,
-- 
2.43.0


From ddded8420e02635bd5b7a847fff78baf794cfded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 09/23] fix: a malformed end-of-stream marker is a failure
 instead of an endless loop

---
 src/codec/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 6e9377e..e7f0598 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -131,6 +131,9 @@ impl<Cdf16:CDF16,
                 self.crc.write(adjusted_input_bytes.split_at(adjusted_input_bytes_offset).0);
             }
             *input_offset += adjusted_input_bytes_offset;
+            if adjusted_input_bytes_offset == 0 && adjusted_input_bytes.len() != 0 && !self.demuxer.encountered_eof() {
+                return DivansInputResult::Failure(ErrMsg::UnexpectedEof); // a malformed end of stream marker
+            }
         }
         if self.demuxer.encountered_eof() && usize::from(self.deserialized_crc_count) != self.deserialized_crc.len() {
             let crc_bytes_remaining = self.deserialized_crc.len() - usize::from(self.deserialized_crc_count);
-- 
2.43.0


From a2769fb38d4178e30cb66c2d86c15be6de02f6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 10/23] fix: a stream whose commands are truncated fails
 instead of asking for input after its end

---
 src/codec/decoder.rs       |  4 ++++
 src/divans_decompressor.rs | 12 +++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index e7f0598..37755a6 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -113,6 +113,10 @@ impl<Cdf16:CDF16,
         }
         self.ctx.m8.free_ref();
     }
+    // true once the file has been read to its end: no amount of further input can help
+    pub fn consumed_whole_file(&self) -> bool {
+        self.demuxer.encountered_eof() && usize::from(self.deserialized_crc_count) == self.deserialized_crc.len()
+    }
     pub fn commands_or_data_to_receive(&self) -> bool {
         self.outstanding_buffer_count > 0 || ( // if we have outstanding buffer
             self.demuxer.encountered_eof() && self.demuxer.data_ready(CMD_CODER as StreamID) == 0) // or we have flushed everything we will have
diff --git a/src/divans_decompressor.rs b/src/divans_decompressor.rs
index 401b0dd..7046ad3 100644
--- a/src/divans_decompressor.rs
+++ b/src/divans_decompressor.rs
@@ -108,6 +108,13 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
      AllocU8:Allocator<u8>,
      AllocCDF16:Allocator<interface::DefaultCDF16>,
      AllocCommand:Allocator<StaticCommand>> DivansProcess<DefaultDecoder, AllocU8, AllocCDF16, AllocCommand> {
+    // a truncated stream must not ask for input after the end of the file
+    fn needs_more_input(&self) -> DivansResult {
+        match self.literal_decoder {
+            Some(ref decoder) if decoder.consumed_whole_file() => DivansResult::Failure(ErrMsg::UnexpectedEof),
+            _ => DivansResult::NeedsMoreInput,
+        }
+    }
     fn decode(&mut self,
               input:&[u8],
               input_offset:&mut usize,
@@ -136,7 +143,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                 DivansResult::Failure(e) => return DivansResult::Failure(e),
                 DivansResult::NeedsMoreInput => {
                     if process.literal_decoder.as_mut().unwrap().outstanding_buffer_count == 0 {
-                        return DivansResult::NeedsMoreInput;
+                        return process.needs_more_input();
                     } else {
                         // we can fall through here because if outstanding_buffer_count != 0 then
                         // the worker either consumed the buffer and returned a command or returned the buffer (a command)
@@ -151,6 +158,9 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                 output_offset);
             process.bytes_encoded += *output_offset - old_output_offset;
             match retval {
+                DecoderResult::Processed(DivansResult::NeedsMoreInput) => {
+                    return process.needs_more_input();
+                },
                 DecoderResult::Processed(divans_retval) => {
                     return divans_retval;
                 },
-- 
2.43.0


From f05efbe19d336cfeef0693bd45df1c744abdde0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 11/23] fix: a corrupt ANS word no longer overflows when
 advancing a symbol

---
 src/ans.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ans.rs b/src/ans.rs
index c965127..7f77062 100644
--- a/src/ans.rs
+++ b/src/ans.rs
@@ -234,7 +234,8 @@ impl ANSDecoder {
         self.buffer_a_bytes_required = self.buffer_b_bytes_required;
         // if we've run out of symbols to decode, we don't care what buffer_a's value is, we just clear state and start fresh
         self.buffer_a_bytes_required |= ((u64::from(self.sym_count) == u64::from(NUM_SYMBOLS_BEFORE_FLUSH - 1)) as u8) << 3;
-        let x = (freq as u64) * (self.state_a >> LOG2_SCALE) + (self.state_a & SCALE_MASK) - start as u64;
+        // a corrupt stream may hold an offset just below the start of its symbol
+        let x = ((freq as u64) * (self.state_a >> LOG2_SCALE) + (self.state_a & SCALE_MASK)).wrapping_sub(start as u64);
         self.sym_count = self.sym_count.wrapping_add(1);
         // if we ran out of data in our state, we setup buffer_b to require pull from our wordstream
         self.buffer_b_bytes_required = (x < NORMALIZATION_INTERVAL) as u8; // mark to need 4 bytes to continue
-- 
2.43.0


From 9d01c2f0660c48bd439a47eaf90f2f018a73042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 12/23] fix: dictionary commands that name no word or transform
 are failures instead of panics

---
 src/cmd_to_raw/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 9798d4d..21042bf 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -290,9 +290,18 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     fn parse_dictionary(&mut self, dict_cmd:&DictCommand) -> DivansOutputResult {
         // dictionary words are bounded in size: make sure there's enough room for the whole word
         let copy_len = u32::from(dict_cmd.word_size);
+        let dict = &kBrotliDictionary;
+        if copy_len as usize >= kBrotliDictionaryOffsetsByLength.len() || dict_cmd.word_id as usize >= dict.len() {
+            return DivansOutputResult::Failure(ErrMsg::DictWordSizeTooLarge(dict_cmd.word_size));
+        }
         let word_len_category_index = kBrotliDictionaryOffsetsByLength[copy_len as usize] as u32;
         let word_index = (dict_cmd.word_id * copy_len) + word_len_category_index;
-        let dict = &kBrotliDictionary;
+        if (word_index + copy_len) as usize > dict.len() {
+            return DivansOutputResult::Failure(ErrMsg::DictWordSizeTooLarge(dict_cmd.word_size));
+        }
+        if dict_cmd.transform >= 121 {
+            return DivansOutputResult::Failure(ErrMsg::DictTransformIndexUndefined(dict_cmd.transform));
+        }
         let word = &dict[(word_index as usize)..(word_index as usize + copy_len as usize)];
         let mut transformed_word = [0u8;kBrotliMaxDictionaryWordLength as usize + 13];
         let final_len = TransformDictionaryWord(&mut transformed_word[..],
-- 
2.43.0


From 2e57bce04d35b4963132bfc8fdd9334bb0d2dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 13/23] fix: a prediction mode with oversized adaptation speeds
 is rejected

---
 src/codec/interface.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codec/interface.rs b/src/codec/interface.rs
index 1dcf9b7..430cbba 100644
--- a/src/codec/interface.rs
+++ b/src/codec/interface.rs
@@ -300,6 +300,12 @@ impl<
             DivansOpResult::Success => {},
             fail => return fail,
         }
+        let max_inc_f8 = Speed::new(0x4000, 0x4000).to_f8_tuple().0;
+        for speed_f8 in pm.stride_context_speed_f8().iter().chain(pm.context_map_speed_f8().iter()) {
+            if speed_f8.0 > max_inc_f8 || speed_f8.1 > max_inc_f8 {
+                return DivansOpResult::Failure(ErrMsg::PredictionModeOutOfBounds(core::cmp::max(speed_f8.0, speed_f8.1)));
+            }
+        }
         for (out_item, in_item) in self.literal_adaptation[..2].iter_mut().zip(pm.stride_context_speed_f8().iter()) {
             *out_item = Speed::from_f8_tuple(*in_item);
         }
-- 
2.43.0


From 0da3632948266374d0fabea69160358a274407a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:47 +0000
Subject: [PATCH 14/23] fix: a copy count of more than 32 bits is rejected
 instead of overflowing its shift

---
 src/codec/copy.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/copy.rs b/src/codec/copy.rs
index fae1d68..69eadca 100644
--- a/src/codec/copy.rs
+++ b/src/codec/copy.rs
@@ -132,6 +132,9 @@ impl CopyState {
                     if superstate.specialization.adapt_cdf() {
                         nibble_prob.blend(last_nib, Speed::FAST);
                     }
+                    if last_nib > 13 {
+                        return DivansResult::Failure(ErrMsg::CommandCodeOutOfBounds(last_nib)); // count would exceed 32 bits
+                    }
                     superstate.bk.last_clen = last_nib + 19;
                     self.state = CopySubstate::CountMantissaNibbles(0, round_up_mod_4(last_nib + 18), 1 << (last_nib + 18));
                 },
-- 
2.43.0


From 4c6006538d0ecc57baa0706634d9c6d4c98b0841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 15/23] fix: the reading adapters lose no input when the
 underlying reader fails

An error of the underlying reader was taken for the end of the input, and
discarded what had been read before it; a session could also be flushed
while input was still buffered.
---
 src/reader.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ecb20c2..ceb7175 100755
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -47,26 +47,29 @@ impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P
         let mut output_offset : usize = 0;
         let mut avail_out = buf.len() - output_offset;
         let mut avail_in = self.input_len - self.input_offset;
-        let mut needs_input = false;
-        while avail_out == buf.len() && (!needs_input || !self.input_eof) {
-           if self.input_len < self.input_buffer.slice_mut().len() && !self.input_eof {
+        while avail_out == buf.len() && avail_out != 0 {
+           if self.input_len < self.input_buffer.slice_mut().len() && !self.input_eof && self.read_error.is_none() {
                match self.input.read(&mut self.input_buffer.slice_mut()[self.input_len..]) {
                    Err(e) => {
                        if let io::ErrorKind::Interrupted = e.kind() {
                           continue;
                        }
+                       // reported once the input buffered so far has been processed
                        self.read_error = Some(e);
-                       self.input_eof = true;
                    },
                    Ok(size) => if size == 0 {
                        self.input_eof = true;
                    } else {
-                       needs_input = false;
                        self.input_len += size;
                        avail_in = self.input_len - self.input_offset;
                    },
                }
            }
+           if avail_in == 0 {
+               if let Some(err) = self.read_error.take() {
+                   return Err(err);
+               }
+           }
            let old_output_offset = output_offset;
            let old_input_offset = self.input_offset;
            let ret = if avail_in == 0 {
@@ -84,20 +87,14 @@ impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P
            avail_in -= self.input_offset - old_input_offset;
            avail_out -= output_offset - old_output_offset;
            if avail_in == 0 {
-             match self.read_error.take() {
-               Some(err) => return Err(err),
-               None => {
-                 needs_input = true;
-                 self.copy_to_front();
-               },
-             }
+             self.copy_to_front();
            }
            match ret {
                DivansResult::Failure(m) => {
                    return Err(io::Error::new(io::ErrorKind::InvalidData, m));
                },
              DivansResult::Success => {
-               if self.input_eof && avail_in == 0 && self.has_flushed {
+               if self.has_flushed {
                  break;
                }
              },
-- 
2.43.0


From db118cde07e3ac8f158780fc80aebeeb7f1ca051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 16/23] fix: the writing adapters lose no output when the
 underlying writer fails

Output already produced was dropped when the underlying write failed or
was short of room, and output held back by the codec was not drained on flush.
---
 src/writer.rs | 80 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 25 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 1f52661..5d4a07d 100755
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -22,6 +22,10 @@ struct GenWriter<W: Write,
                  BufferType:SliceWrapperMut<u8>> {
   compressor: P,
   output_buffer: BufferType,
+  pending_start: usize, // output_buffer[pending_start..pending_end] still has to be written
+  pending_end: usize,
+  more_output: bool, // the last call to the codec filled output_buffer
+  write_error: Option<io::Error>,
   has_flushed: bool,
   output: W,
 }
@@ -29,55 +33,61 @@ struct GenWriter<W: Write,
 
 impl<W:Write, P:Processor, BufferType:SliceWrapperMut<u8>> Write for GenWriter<W,P,BufferType> {
     fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
-        let mut avail_in = buf.len();
+        try!(self.write_pending());
         let mut input_offset : usize = 0;
         loop {
-            let mut output_offset = 0;
-            let old_input_offset = input_offset;
+            self.pending_start = 0;
+            self.pending_end = 0;
             let op_result = self.compressor.process(
-                &buf.split_at(avail_in + input_offset).0,
+                buf,
                 &mut input_offset,
                 self.output_buffer.slice_mut(),
-                &mut output_offset);
-            avail_in -= input_offset - old_input_offset;
-            match self.output.write_all(&self.output_buffer.slice_mut()[..output_offset]) {
-                Ok(_) => {},
-                Err(e) => return Err(e),
+                &mut self.pending_end);
+            self.more_output = match op_result {
+                DivansResult::NeedsMoreOutput => true,
+                _ => false,
+            };
+            if let Err(e) = self.write_pending() {
+                if input_offset == 0 {
+                    return Err(e);
+                }
+                // part of buf has been accepted: the error is reported by the next call
+                self.write_error = Some(e);
+                return Ok(input_offset);
             }
             match op_result {
-                DivansResult::NeedsMoreInput => if avail_in != 0 {
+                DivansResult::NeedsMoreInput => if input_offset != buf.len() {
                     return Err(io::Error::new(
                         io::ErrorKind::UnexpectedEof,
-                        ErrMsg::TrailingInput(core::cmp::min(avail_in, 255) as u8)));
+                        ErrMsg::TrailingInput(core::cmp::min(buf.len() - input_offset, 255) as u8)));
                 },
                 DivansResult::NeedsMoreOutput => continue,
                 DivansResult::Success => return Ok(buf.len()),
                 DivansResult::Failure(m) => return Err(io::Error::new(io::ErrorKind::InvalidInput, m)),
             }
-            if avail_in == 0 {
+            if input_offset == buf.len() {
                 break
             }
         }
         Ok(buf.len())
     }
     fn flush(&mut self) -> Result<(), io::Error> {
+        if self.more_output {
+            try!(self.write(&[]));
+        }
+        try!(self.write_pending());
         while !self.has_flushed {
-            let mut output_offset = 0;
+            self.pending_start = 0;
+            self.pending_end = 0;
             let ret = self.compressor.close(
                 self.output_buffer.slice_mut(),
-                &mut output_offset);
-            match self.output.write_all(&self.output_buffer.slice_mut()[..output_offset]) {
-                Ok(_) => {},
-                Err(e) => return Err(e),
+                &mut self.pending_end);
+            if let DivansOutputResult::Success = ret {
+                self.has_flushed = true;
             }
-            match ret {
-                DivansOutputResult::Failure(m) => {
-                    return Err(io::Error::new(io::ErrorKind::InvalidInput, m))
-                }
-                DivansOutputResult::NeedsMoreOutput => {},
-                DivansOutputResult::Success => {
-                    self.has_flushed = true;
-                }
+            try!(self.write_pending());
+            if let DivansOutputResult::Failure(m) = ret {
+                return Err(io::Error::new(io::ErrorKind::InvalidInput, m))
             }
         }
         self.output.flush()
@@ -89,9 +99,29 @@ impl<W:Write, C:Processor, BufferType:SliceWrapperMut<u8>> GenWriter<W,C,BufferT
             output:writer,
             compressor:compressor,
             output_buffer: buffer,
+            pending_start: 0,
+            pending_end: 0,
+            more_output: false,
+            write_error: None,
             has_flushed: !needs_flush,
         }
     }
+    // hands the staged output to the underlying writer; what it does not take stays staged for the next call
+    fn write_pending(&mut self) -> Result<(), io::Error> {
+        if let Some(e) = self.write_error.take() {
+            return Err(e);
+        }
+        while self.pending_start != self.pending_end {
+            match self.output.write(&self.output_buffer.slice_mut()[self.pending_start..self.pending_end]) {
+                Ok(0) => return Err(io::Error::new(io::ErrorKind::WriteZero, "failed to write whole buffer")),
+                Ok(size) => self.pending_start += size,
+                Err(e) => if e.kind() != io::ErrorKind::Interrupted {
+                    return Err(e);
+                },
+            }
+        }
+        Ok(())
+    }
 }
 type DivansBrotliFactory = ::BrotliDivansHybridCompressorFactory<HeapAlloc<u8>,
 //                                                         HeapAlloc<u32>,
-- 
2.43.0


From f8a6115f62e3540dd845909eea6df5476792631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 17/23] fix: freeing the demuxer returns its buffer to the
 allocator

It was handed to the worker, which had been freed already.
---
 src/threading.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/threading.rs b/src/threading.rs
index 4470663..714e5eb 100755
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -366,7 +366,7 @@ impl<AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>> StreamDemuxer
     #[inline(always)]
     fn free_demux(&mut self, m8: &mut AllocU8){
         if self.slice.0.slice().len() != 0 {
-            self.worker.push_consumed_data(&mut self.slice, None);
+            // freed here, not handed back: the worker may have been freed already
             m8.free_cell(core::mem::replace(&mut self.slice.0, AllocU8::AllocatedMemory::default()));
         }
     }
-- 
2.43.0


From d43e3b6ef8546ddddd94644911fe83578f4f3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 18/23] fix: no block is requested from the caller's allocator
 for an empty slice

Such a block could never be returned: free_cell takes it for the empty default.
---
 src/ffi/alloc_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ffi/alloc_util.rs b/src/ffi/alloc_util.rs
index abc77c9..439a5c3 100644
--- a/src/ffi/alloc_util.rs
+++ b/src/ffi/alloc_util.rs
@@ -71,6 +71,9 @@ impl<Ty:Sized+Default+Clone> alloc::Allocator<Ty> for SubclassableAllocator<Ty>
     type AllocatedMemory = MemoryBlock<Ty>;
     fn alloc_cell(&mut self, size:usize) ->MemoryBlock<Ty>{
         if let Some(alloc_fn) = self.alloc.alloc_func {
+            if size == 0 { // free_cell could not tell such a block from no block
+                return MemoryBlock::default();
+            }
             let ptr = alloc_fn(self.alloc.opaque, size * core::mem::size_of::<Ty>());
             let typed_ptr = unsafe {core::mem::transmute::<*mut c_void, *mut Ty>(ptr)};
             let slice_ref = unsafe {core::slice::from_raw_parts_mut(typed_ptr, size)};
@@ -170,6 +173,9 @@ impl<Ty:Sized+Default+Clone> alloc::Allocator<Ty> for SubclassableAllocator<Ty>
     type AllocatedMemory = MemoryBlock<Ty>;
     fn alloc_cell(&mut self, size:usize) ->MemoryBlock<Ty>{
         if let Some(alloc_fn) = self.alloc.alloc_func {
+            if size == 0 { // free_cell could not tell such a block from no block
+                return MemoryBlock::default();
+            }
             let ptr = alloc_fn(self.alloc.opaque, size * core::mem::size_of::<Ty>());
             let typed_ptr = unsafe {core::mem::transmute::<*mut c_void, *mut Ty>(ptr)};
             let slice_ref = unsafe {core::slice::from_raw_parts_mut(typed_ptr, size)};
-- 
2.43.0


From 38b6be73c2565b74a858ed1af07abcf0288ddb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 19/23] fix: the context map of a rejected prediction mode is
 returned to the allocator

---
 src/codec/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 37755a6..860262f 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -395,7 +395,11 @@ impl<Cdf16:CDF16,
                             &mut self.ctx.mcdf16);
                         match ret {
                             DivansOpResult::Success => {},
-                            _ => return DecoderResult::Processed(DivansResult::from(ret)),
+                            _ => {
+                                free_cmd(&mut Command::PredictionMode(pred_mode),
+                                         &mut self.ctx.m8.use_cached_allocation::<UninitializedOnAlloc>());
+                                return DecoderResult::Processed(DivansResult::from(ret));
+                            },
                         }
                         self.codec_traits = construct_codec_trait_from_bookkeeping(&self.ctx.lbk);
                         match worker.push_context_map(pred_mode) {
-- 
2.43.0


From b75e6f65321df3c99e661eee39df53da99f4d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 20/23] fix: a command that waits for room is freed when the
 codec is freed

---
 src/codec/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/mod.rs b/src/codec/mod.rs
index 89981cd..f0d2642 100755
--- a/src/codec/mod.rs
+++ b/src/codec/mod.rs
@@ -327,6 +327,9 @@ impl<AllocU8: Allocator<u8>,
                                LiteralCommand::<AllocatedMemoryPrefix<u8, AllocU8>>::nop()).data);
 
         self.state_prediction_mode.free(self.cross_command_state.thread_ctx.m8().unwrap());
+        // a command that was still waiting for room when the caller gave up
+        free_cmd(&mut self.state_populate_ring_buffer,
+                 &mut self.cross_command_state.thread_ctx.m8().unwrap().use_cached_allocation::<UninitializedOnAlloc>());
         self.cross_command_state.free_ref()
     }
     #[inline(always)]
-- 
2.43.0


From 46014284aaa7b1e9b18082dbd55e3467f248e259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 21/23] fix: the optimizer's trial distances no longer
 underflow

A copy distance below the tried offset panicked in debug builds.
---
 src/ir_optimize/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ir_optimize/mod.rs b/src/ir_optimize/mod.rs
index 405148b..0c4f49f 100644
--- a/src/ir_optimize/mod.rs
+++ b/src/ir_optimize/mod.rs
@@ -44,17 +44,17 @@ pub fn should_merge<SelectedCDF:CDF16,
             //future_hit = i32::from(entry_id);
             match entry_id {
                 0 | 1 | 2 | 3 => actuary.cross_command_state.bk.distance_lru[entry_id as usize] = copy.distance,
-                4 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance - 1,
+                4 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.saturating_sub(1),
                 5 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance + 1,
-                6 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance - 1,
+                6 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.saturating_sub(1),
                 7 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance + 1,
-                8 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance - 2,
+                8 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.saturating_sub(2),
                 9 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance + 2,
-                10 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance - 2,
+                10 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.saturating_sub(2),
                 11 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance + 2,
-                12 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance - 3,
+                12 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.saturating_sub(3),
                 13 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance + 3,
-                14 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance - 3,
+                14 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.saturating_sub(3),
                 _ => {},
             }
         }
-- 
2.43.0


From e195dac39df2e5d5ad466046bac3a68125891aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 22/23] fix: the C helpers hand a block back only to the
 allocator it came from

---
 src/ffi/mod.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/ffi/mod.rs b/src/ffi/mod.rs
index af84f97..b03d7ee 100755
--- a/src/ffi/mod.rs
+++ b/src/ffi/mod.rs
@@ -118,8 +118,10 @@ pub unsafe extern fn divans_compressor_malloc_u8(state_ptr: *mut DivansCompresso
 
 #[no_mangle]
 pub unsafe extern fn divans_compressor_free_u8(state_ptr: *mut DivansCompressorState, data: *mut u8, size: usize) {
-    if let Some(free_fn) = (*state_ptr).custom_allocator.free_func {
-        free_fn((*state_ptr).custom_allocator.opaque, core::mem::transmute::<*mut u8, *mut c_void>(data));
+    if let Some(_) = (*state_ptr).custom_allocator.alloc_func { // only the caller can free what its alloc_func returned
+        if let Some(free_fn) = (*state_ptr).custom_allocator.free_func {
+            free_fn((*state_ptr).custom_allocator.opaque, core::mem::transmute::<*mut u8, *mut c_void>(data));
+        }
     } else {
         alloc_util::free_stdlib(data, size);
     }
@@ -137,8 +139,10 @@ pub unsafe extern fn divans_compressor_malloc_usize(state_ptr: *mut DivansCompre
 }
 #[no_mangle]
 pub unsafe extern fn divans_compressor_free_usize(state_ptr: *mut DivansCompressorState, data: *mut usize, size: usize) {
-    if let Some(free_fn) = (*state_ptr).custom_allocator.free_func {
-        free_fn((*state_ptr).custom_allocator.opaque, core::mem::transmute::<*mut usize, *mut c_void>(data));
+    if let Some(_) = (*state_ptr).custom_allocator.alloc_func { // only the caller can free what its alloc_func returned
+        if let Some(free_fn) = (*state_ptr).custom_allocator.free_func {
+            free_fn((*state_ptr).custom_allocator.opaque, core::mem::transmute::<*mut usize, *mut c_void>(data));
+        }
     } else {
         alloc_util::free_stdlib(data, size);
     }
@@ -283,8 +287,10 @@ pub unsafe extern fn divans_decompressor_malloc_u8(state_ptr: *mut DivansDecompr
 
 #[no_mangle]
 pub unsafe extern fn divans_decompressor_free_u8(state_ptr: *mut DivansDecompressorState, data: *mut u8, size: usize) {
-    if let Some(free_fn) = (*state_ptr).custom_allocator.free_func {
-        free_fn((*state_ptr).custom_allocator.opaque, core::mem::transmute::<*mut u8, *mut c_void>(data));
+    if let Some(_) = (*state_ptr).custom_allocator.alloc_func { // only the caller can free what its alloc_func returned
+        if let Some(free_fn) = (*state_ptr).custom_allocator.free_func {
+            free_fn((*state_ptr).custom_allocator.opaque, core::mem::transmute::<*mut u8, *mut c_void>(data));
+        }
     } else {
         alloc_util::free_stdlib(data, size);
     }
@@ -301,8 +307,10 @@ pub unsafe extern fn divans_decompressor_malloc_usize(state_ptr: *mut DivansDeco
 }
 #[no_mangle]
 pub unsafe extern fn divans_decompressor_free_usize(state_ptr: *mut DivansDecompressorState, data: *mut usize, size: usize) {
-    if let Some(free_fn) = (*state_ptr).custom_allocator.free_func {
-        free_fn((*state_ptr).custom_allocator.opaque, core::mem::transmute::<*mut usize, *mut c_void>(data));
+    if let Some(_) = (*state_ptr).custom_allocator.alloc_func { // only the caller can free what its alloc_func returned
+        if let Some(free_fn) = (*state_ptr).custom_allocator.free_func {
+            free_fn((*state_ptr).custom_allocator.opaque, core::mem::transmute::<*mut usize, *mut c_void>(data));
+        }
     } else {
         alloc_util::free_stdlib(data, size);
     }
-- 
2.43.0


From 140739d7e27965f14f15b474a26064d102d54b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:34 +0000
Subject: [PATCH 23/23] fix: drop the outstanding word of a corrupt chunk when
 the next ANS chunk is loaded

A damaged stream can reach the end of a 65536 symbol chunk with a word still
outstanding for the second register. The request survived the load of the
next chunk, which then wanted 20 bytes where the literal loop had checked for
16: with 16 to 19 bytes at hand the debug build panicked and the release
build decoded from a register that had not been filled.
---
 src/ans.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ans.rs b/src/ans.rs
index 7f77062..f6bf8c9 100644
--- a/src/ans.rs
+++ b/src/ans.rs
@@ -175,6 +175,7 @@ impl ANSDecoder {
             self.sym_count = 0;
             self.state_a = 0;
             self.state_b = 0;
+            self.buffer_b_bytes_required = 0; // a corrupt chunk may end with a word outstanding: it is not part of the next one
             if data.len() >= 16 {
                 self.state_a = u64::from(data[0])|(u64::from(data[1]) << 8)|(u64::from(data[2]) << 16) | (u64::from(data[3]) << 24) |
                     (u64::from(data[4]) << 32)|(u64::from(data[5]) << 40)|(u64::from(data[6]) << 48) | (u64::from(data[7]) << 56);
-- 
2.43.0

