From a53e346dcedd77c849431a7a4b61810ebd3b6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 01/25] fix: raw-to-command ring buffer must not restart
 mid-buffer once output has begun

RawToCmdState::stream reset its write index to zero after every copy once any
byte had been consumed, so input larger than the window fed in small pieces
was silently corrupted. Wrap only when the write index reaches the end.
---
 src/raw_to_cmd/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_to_cmd/mod.rs b/src/raw_to_cmd/mod.rs
index d01ac94..a09eed5 100644
--- a/src/raw_to_cmd/mod.rs
+++ b/src/raw_to_cmd/mod.rs
@@ -66,7 +66,7 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>, AllocU32:Allocator<u32>
             self.ring_buffer.slice_mut()[(self.ring_buffer_decode_index as usize)..(self.ring_buffer_decode_index as usize + max_copy)].clone_from_slice(&input[*input_offset..(*input_offset + max_copy)]);
             *input_offset += max_copy;
             self.ring_buffer_decode_index += max_copy as u32;
-            if self.ring_buffer_output_index != 0 {
+            if self.ring_buffer_output_index != 0 && self.ring_buffer_decode_index as usize == self.ring_buffer.slice().len() {
                self.ring_buffer_decode_index = 0;
             }
         }
-- 
2.43.0


From c95930afa6336df0c53fdbdbf61d553c2a156e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 02/25] fix: reject out-of-range dictionary words and zero copy
 distances

A malformed stream could select a dictionary word beyond the last word of its
length, or a copy distance of zero, and panic the recoder (slice index out of
range / division by zero). Report a failure instead.
---
 src/cmd_to_raw/mod.rs | 11 ++++++++++-
 src/interface.rs      |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 52b03cb..0869b05 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -17,7 +17,7 @@ use core;
 pub use interface::{DivansResult, DivansOutputResult, ErrMsg};
 pub use alloc::{AllocatedStackMemory, Allocator, SliceWrapper, SliceWrapperMut, StackAllocator};
 use brotli::dictionary::{kBrotliMaxDictionaryWordLength, kBrotliDictionary,
-                                      kBrotliDictionaryOffsetsByLength};
+                                      kBrotliDictionaryOffsetsByLength, kBrotliDictionarySizeBitsByLength};
 use brotli::TransformDictionaryWord;
 pub use super::interface::{Command, Compressor, LiteralCommand, CopyCommand, DictCommand, FeatureFlagSliceType};
 mod test;
@@ -243,6 +243,9 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     }
     #[inline(always)]
     fn parse_copy(&mut self, copy:&CopyCommand) -> DivansOutputResult {
+        if copy.distance == 0 {
+            return DivansOutputResult::Failure(ErrMsg::Distance0NotAllowed);
+        }
         let num_bytes_left_in_cmd = copy.num_bytes - self.state.input_sub_offset as u32;
         if copy.distance <= REPEAT_BUFFER_MAX_SIZE && num_bytes_left_in_cmd > copy.distance {
             let num_bytes_to_copy = core::cmp::min(num_bytes_left_in_cmd,
@@ -284,6 +287,12 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     fn parse_dictionary(&mut self, dict_cmd:&DictCommand) -> DivansOutputResult {
         // dictionary words are bounded in size: make sure there's enough room for the whole word
         let copy_len = u32::from(dict_cmd.word_size);
+        if copy_len > u32::from(kBrotliMaxDictionaryWordLength) {
+            return DivansOutputResult::Failure(ErrMsg::DictWordSizeTooLarge(dict_cmd.word_size));
+        }
+        if dict_cmd.word_id >> kBrotliDictionarySizeBitsByLength[copy_len as usize] != 0 {
+            return DivansOutputResult::Failure(ErrMsg::DictWordIdOutOfBounds(dict_cmd.word_size));
+        }
         let word_len_category_index = kBrotliDictionaryOffsetsByLength[copy_len as usize] as u32;
         let word_index = (dict_cmd.word_id * copy_len) + word_len_category_index;
         let dict = &kBrotliDictionary;
diff --git a/src/interface.rs b/src/interface.rs
index 09f354c..e53d66c 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -61,6 +61,7 @@ pub enum ErrMsg {
     MainFunctionCalledFromThread(u8),
     DecodingDecoderAlreadyFreed,
     AdvContextMapNotBoolean(u8),
+    DictWordIdOutOfBounds(u8),
 }
 
 
-- 
2.43.0


From 4c40b63bc807472f2e1193122cea840470e90263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 03/25] fix: demuxer must make progress on a malformed
 end-of-stream marker

A byte that is not the next byte of the marker left the demuxer consuming
nothing forever; treat it as a slice header as every other byte is.
---
 src/mux.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/mux.rs b/src/mux.rs
index 6c65372..b45504a 100644
--- a/src/mux.rs
+++ b/src/mux.rs
@@ -408,14 +408,17 @@ impl<AllocU8:Allocator<u8>> Mux<AllocU8> {
                     ret += to_push.len();
                 }
                 BytesToDeserialize::None => {
-                    if input[0] == EOF_MARKER[0] || input[0] == EOF_MARKER[1] || input[0] == EOF_MARKER[2] {
-                        if input[0] == EOF_MARKER[0] || match self.eof {
-                            StreamState::Running => false,
-                            _ => true,
-                        } {
-                            //eprint!("DESERIALIZING EOF\n");
-                            return ret + self.deserialize_eof(input);
-                        }
+                    let next_eof_byte = match self.eof {
+                        StreamState::EofStart => EOF_MARKER[1],
+                        StreamState::EofMid => EOF_MARKER[2],
+                        _ => EOF_MARKER[0],
+                    };
+                    if input[0] == next_eof_byte { // anything else is a slice header: each pass must consume input
+                        //eprint!("DESERIALIZING EOF\n");
+                        let eof_bytes = self.deserialize_eof(input);
+                        input = input.split_at(eof_bytes).1;
+                        ret += eof_bytes;
+                        continue;
                     }
                     let stream_id = input[0] & STREAM_ID_MASK;
                     let count: usize;
-- 
2.43.0


From 8fd51dd54fdabce97a944839b0fc78019339c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 04/25] fix: readers must not spin on trailing input or an
 empty buffer

Bytes after the end of a valid stream, or a zero-length read, made read()
loop forever without progress.
---
 src/reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index a1149e1..121d8a9 100755
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -44,6 +44,9 @@ struct GenReader<R: Read,
 
 impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P,BufferType> {
 	fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let mut output_offset : usize = 0;
         let mut avail_out = buf.len() - output_offset;
         let mut avail_in = self.input_len - self.input_offset;
@@ -100,6 +103,9 @@ impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P
                if self.input_eof && avail_in == 0 && self.has_flushed {
                  break;
                }
+               if self.input_offset == old_input_offset && output_offset == old_output_offset {
+                 break; // the stream is complete: what follows it is not part of it
+               }
              },
              DivansResult::NeedsMoreInput | DivansResult::NeedsMoreOutput => {},
            }
-- 
2.43.0


From d77eda1f901771a9a92920777b98faf450e8dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 05/25] fix: multithreaded decoder must not deadlock on
 truncated or corrupt streams

A worker waiting for command data ignored a broadcast error, so freeing a
decoder part-way through a stream hung forever, and once the end-of-stream
marker had arrived both sides waited for each other when the command stream
was exhausted early. Every wait now ends when an error is broadcast, the main
thread tells the worker when no more data will follow, and the worker stops
instead of spinning (or panicking, if it was freed before it got to run).
---
 src/codec/decoder.rs         |  4 ++++
 src/multithreading.rs        | 22 ++++++++++++++++------
 src/parallel_decompressor.rs | 17 +++++++++++------
 src/threading.rs             | 18 ++++++++++++++++++
 4 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 6bd30dd..07b233e 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -293,6 +293,10 @@ impl<Cdf16:CDF16,
                 let mut consumed_data = [AllocatedMemoryRange::<u8, AllocU8>::default(),
                                          AllocatedMemoryRange::<u8, AllocU8>::default()];
                 let status;
+                if self.outstanding_buffer_count == 0 && self.demuxer.encountered_eof()
+                    && self.demuxer.data_ready(CMD_CODER as StreamID) == 0 {
+                    worker.push_end_of_data(); // the worker must not wait for what will never come
+                }
                 {
                     assert_eq!(self.pred_buffer[0].has_context_speeds(), false);
                     assert_eq!(self.pred_buffer[1].has_context_speeds(), false);
diff --git a/src/multithreading.rs b/src/multithreading.rs
index 85a9b62..25e4fd4 100755
--- a/src/multithreading.rs
+++ b/src/multithreading.rs
@@ -228,6 +228,14 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
             }
         }
     }
+    fn push_end_of_data(&mut self) {
+        let &(ref lock, ref cvar) = &*self.queue;
+        let mut worker = lock.lock().unwrap();
+        worker.set_end_of_data();
+        if worker.waiters != 0 {
+            cvar.notify_one();
+        }
+    }
     fn broadcast_err(&mut self,
                      err:ErrMsg) {
         self.broadcast_err_internal(err, ThreadEventType::M_BROADCAST_ERR);
@@ -243,10 +251,12 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.data_ready() {
+            if worker.data_ready() || worker.err.is_some() {
                 let ret = worker.pull_data();
-                thread_debug!(ThreadEventType::W_PULL_DATA, match ret {ThreadData::Data(ref d) => d.len(), ThreadData::Yield => 0, ThreadData::Eof=> 99999999,}, self, _elapsed);
+                thread_debug!(ThreadEventType::W_PULL_DATA, match ret {ThreadData::Data(ref d) => d.len(), ThreadData::Yield => 0, ThreadData::Eof=> 99999999, ThreadData::Err(_) => 0,}, self, _elapsed);
                 return ret;
+            } else if worker.end_of_data() {
+                return ThreadData::Eof;
             } else {
                 thread_debug!(ThreadEventType::W_WAIT_PULL_DATA, 0, self, _elapsed);
                 worker.waiters += 1;
@@ -262,7 +272,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.cm_ready() {
+            if worker.cm_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -290,7 +300,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 thread_debug!(ThreadEventType::W_PUSH_CMD, 1, self, _elapsed);
                 if worker.waiters != 0 {
                     cvar.notify_one();
@@ -314,7 +324,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -335,7 +345,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index cc89219..560a960 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -12,7 +12,7 @@ use codec::decoder::{DecoderResult, DivansDecoderCodec};
 use threading::{ThreadToMainDemuxer, ThreadToMain};
 use multithreading::{BufferedMultiWorker, MultiWorker};
 
-use ::interface::{DivansResult, DivansInputResult, ErrMsg};
+use ::interface::{DivansResult, DivansInputResult, ErrMsg, StreamDemuxer};
 use ::ArithmeticEncoderOrDecoder;
 use ::alloc::{Allocator};
 use std::thread;
@@ -123,13 +123,18 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                         },
                         DivansResult::NeedsMoreInput => {
                             //eprintln!("W_RETRY_PULL");//unimplemented!(); // we should block here--- maybe this is an error
+                            if process_codec.demuxer().encountered_eof() { // no more is coming
+                                process_codec.demuxer().broadcast_err(ErrMsg::UnexpectedEof);
+                                return;
+                            }
+                        },
+                        DivansResult::NeedsMoreOutput => { // every wait for room has ended because the other side gave up
+                            process_codec.demuxer().broadcast_err(ErrMsg::UnexpectedEof);
+                            return;
                         },
-                        DivansResult::NeedsMoreOutput => {}, // lets make room for more output
                     }
                 }
-            } else {
-                panic!("Thread started with None-process_codec")
-            }
+            } // else the decompressor was freed before this thread got to run
         });
         ParallelDivansProcess::<DefaultDecoder, AllocU8, AllocCDF16, AllocCommand> {
             mcommand:mc,
@@ -141,7 +146,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
     }
     pub fn free_ref(&mut self) {
         self.worker.broadcast_err(ErrMsg::UnexpectedEof); // in case we still have a worker holding the lock, not done
-        if let Some(ref mut codec) = *self.codec.lock().unwrap() {
+        if let Some(mut codec) = core::mem::replace(&mut *self.codec.lock().unwrap(), None) {
             let lit_decoder = core::mem::replace(&mut self.literal_decoder, None);
             if let Some(ld) = lit_decoder {
                 codec.join(ld, &mut self.mcommand);
diff --git a/src/threading.rs b/src/threading.rs
index 4470663..88c87ce 100755
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -52,6 +52,8 @@ pub trait MainToThread<AllocU8:Allocator<u8>> {
             output:&mut Self::CommandOutputType,
             consumed_data:&mut [AllocatedMemoryRange<u8, AllocU8>;NUM_DATA_BUFFERED],
             pm:&mut [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2]) -> CommandResult;
+    // no data will follow what has been pushed: a worker that asks for more must not wait for it
+    fn push_end_of_data(&mut self) {}
     fn broadcast_err(&mut self, err:ErrMsg);
 }
 
@@ -95,6 +97,7 @@ pub struct SerialWorker<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticComm
     result_data: [AllocatedMemoryRange<u8, AllocU8>; NUM_DATA_BUFFERED],
     result_cm: [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2],
     pub waiters: u8,
+    end_of_data: bool, // the main thread has no further data for the worker
     eof_present_in_result: CommandResult, // retriever should try to get everything
     pub err: Option<ErrMsg>,
 }
@@ -127,6 +130,12 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> SerialWorker<
     pub fn data_ready(&self) -> bool {
         self.data_len != 0
     }
+    pub fn set_end_of_data(&mut self) {
+        self.end_of_data = true;
+    }
+    pub fn end_of_data(&self) -> bool {
+        self.end_of_data
+    }
     pub fn returned_data_space_ready(&self) -> bool {
         self.result_data[NUM_DATA_BUFFERED -1].0.len() == 0
     }
@@ -171,6 +180,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> SerialWorker<
     pub fn new(mc:&mut AllocCommand) -> Self {
         SerialWorker::<AllocU8, AllocCommand> {
             waiters: 0,
+            end_of_data: false,
             eof_present_in_result: CommandResult::Ok,
             data_len: 0,
             data:[ThreadData::<AllocU8>::default(),
@@ -294,6 +304,10 @@ impl <AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>> ThreadToMain
             let ret = self.send_any_empty_data_buffer_to_main();
             match ret {
                 DivansOutputResult::Success => {},
+                DivansOutputResult::Failure(e) => {
+                    self.eof = true; // nothing more will arrive
+                    return DivansOutputResult::Failure(e);
+                },
                 need_something => return need_something,
             }
             match self.worker.pull_data() {
@@ -305,6 +319,7 @@ impl <AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>> ThreadToMain
                 },
                 ThreadData::Yield => {},
                 ThreadData::Err(e) => {
+                    self.eof = true; // nothing more will arrive
                     return DivansOutputResult::Failure(e);
                 }
             }
@@ -431,6 +446,9 @@ impl <AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>+MainToThread<
             pm:&mut [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2]) -> CommandResult {    
         self.worker.pull(output, consumed_data, pm)
     }
+    fn push_end_of_data(&mut self) {
+        self.worker.push_end_of_data();
+    }
     fn broadcast_err(&mut self, err:ErrMsg) {
         <WorkerInterface as ThreadToMain<AllocU8>>::broadcast_err(&mut self.worker, err);
     }
-- 
2.43.0


From f05f7f8c603fa1c64930e55297038dbdd626e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 06/25] fix: brotli qualities 0 and 1 must not lose all of the
 data

---
 src/brotli_ir_gen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 13fe93c..b8b204d 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -391,7 +391,9 @@ impl<AllocU8:Allocator<u8>,
                                                        opt.lgblock.unwrap_or(18));
         brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                        brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_QUALITY,
-                                                       u32::from(opt.quality.unwrap_or(10)));
+                                                       // the one and two pass brotli modes never report
+                                                       // any commands, so they would lose all of the data
+                                                       core::cmp::max(u32::from(opt.quality.unwrap_or(10)), 2));
         if opt.q9_5 {
             brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                        brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_Q9_5,
-- 
2.43.0


From 33b77ce37181b89dd140433546550dc3f8912c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 07/25] fix: the default compressor must not ask for input
 while it still holds some

---
 src/brotli_ir_gen.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index b8b204d..bc28386 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -251,13 +251,17 @@ impl<SelectedCDF:CDF16,
               input_offset: &mut usize,
               _output: &mut [u8],
               _output_offset: &mut usize) -> DivansResult {
-        match self.internal_encode_stream(BrotliEncoderOperation::BROTLI_OPERATION_PROCESS,
-                                          input,
-                                          input_offset,
-                                          false) {
-            DivansResult::NeedsMoreOutput => DivansResult::Failure(ErrMsg::BrotliInternalEncodeStreamNeedsOutputWithoutFlush),
-            DivansResult::Failure(m) => DivansResult::Failure(m),
-            DivansResult::Success | DivansResult::NeedsMoreInput => DivansResult::NeedsMoreInput,
+        loop { // the brotli encoder may pause to hand over output before it has taken all of the input
+            match self.internal_encode_stream(BrotliEncoderOperation::BROTLI_OPERATION_PROCESS,
+                                              input,
+                                              input_offset,
+                                              false) {
+                DivansResult::NeedsMoreOutput => return DivansResult::Failure(ErrMsg::BrotliInternalEncodeStreamNeedsOutputWithoutFlush),
+                DivansResult::Failure(m) => return DivansResult::Failure(m),
+                DivansResult::Success | DivansResult::NeedsMoreInput => if *input_offset == input.len() {
+                    return DivansResult::NeedsMoreInput;
+                },
+            }
         }
     }
     fn flush(&mut self,
-- 
2.43.0


From 8b30accfd82a779a5daef251b4edab7bf3e8eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 08/25] fix: a stream that ends before its commands must be an
 error, not a request for input

---
 src/codec/decoder.rs       | 4 ++++
 src/divans_decompressor.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 07b233e..f561ecc 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -274,6 +274,10 @@ impl<Cdf16:CDF16,
                                         core::mem::replace(&mut self.state_lit.lc,
                                                            LiteralCommand::<AllocatedMemoryPrefix<u8, AllocU8>>::nop()));
                                 },
+                                DivansResult::NeedsMoreInput if self.demuxer.encountered_eof() => {
+                                    // the end marker came before the end of the literals: no input can help
+                                    return DecoderResult::Processed(DivansResult::Failure(ErrMsg::UnexpectedEof));
+                                },
                                 retval => {
                                     return DecoderResult::Processed(retval);
                                 }
diff --git a/src/divans_decompressor.rs b/src/divans_decompressor.rs
index 2e7febd..9dd300c 100644
--- a/src/divans_decompressor.rs
+++ b/src/divans_decompressor.rs
@@ -136,6 +136,10 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                 DivansResult::Failure(e) => return DivansResult::Failure(e),
                 DivansResult::NeedsMoreInput => {
                     if process.literal_decoder.as_mut().unwrap().outstanding_buffer_count == 0 {
+                        if process.literal_decoder.as_mut().unwrap().commands_or_data_to_receive() {
+                            // the end marker came before the end of the commands: no input can help
+                            return DivansResult::Failure(ErrMsg::UnexpectedEof);
+                        }
                         return DivansResult::NeedsMoreInput;
                     } else {
                         // we can fall through here because if outstanding_buffer_count != 0 then
-- 
2.43.0


From 05e2e58972e4c4cabed71de4f4c641727960ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 09/25] fix: a decoder that rejected a prediction mode must not
 spin when called again

---
 src/codec/decoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index f561ecc..7351a70 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -394,15 +394,16 @@ impl<Cdf16:CDF16,
                         let ret = self.ctx.lbk.obs_prediction_mode_context_map(
                             &pred_mode,
                             &mut self.ctx.mcdf16);
+                        // the worker needs its context map back even if the mode in it is unknown
+                        match worker.push_context_map(pred_mode) {
+                            Ok(_) => {},
+                            Err(_) => panic!("thread unable to accept 2 concurrent context map"),
+                        }
                         match ret {
                             DivansOpResult::Success => {},
                             _ => return DecoderResult::Processed(DivansResult::from(ret)),
                         }
                         self.codec_traits = construct_codec_trait_from_bookkeeping(&self.ctx.lbk);
-                        match worker.push_context_map(pred_mode) {
-                            Ok(_) => {},
-                            Err(_) => panic!("thread unable to accept 2 concurrent context map"),
-                        }
                     },
                     &mut Command::BlockSwitchLiteral(new_block_type) => {
                         self.ctx.lbk.obs_literal_block_switch(new_block_type.clone());
-- 
2.43.0


From e1c326c312d0924c7cd7719704939f7dc1847ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 10/25] fix: reject copies from beyond the ring buffer, which
 looped forever, panicked or copied other bytes

---
 src/cmd_to_raw/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 0869b05..a7f974a 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -246,6 +246,10 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
         if copy.distance == 0 {
             return DivansOutputResult::Failure(ErrMsg::Distance0NotAllowed);
         }
+        // the window holds one byte less than the ring buffer
+        if copy.distance as usize >= self.ring_buffer.slice().len() {
+            return DivansOutputResult::Failure(ErrMsg::DistanceGreaterRingBuffer);
+        }
         let num_bytes_left_in_cmd = copy.num_bytes - self.state.input_sub_offset as u32;
         if copy.distance <= REPEAT_BUFFER_MAX_SIZE && num_bytes_left_in_cmd > copy.distance {
             let num_bytes_to_copy = core::cmp::min(num_bytes_left_in_cmd,
-- 
2.43.0


From d6f98be72772dc66cab49ca1a06eee7ff321a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 11/25] fix: reject dictionary words and transforms that do not
 exist instead of panicking

---
 src/cmd_to_raw/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index a7f974a..d715017 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -16,9 +16,10 @@ use core;
 
 pub use interface::{DivansResult, DivansOutputResult, ErrMsg};
 pub use alloc::{AllocatedStackMemory, Allocator, SliceWrapper, SliceWrapperMut, StackAllocator};
-use brotli::dictionary::{kBrotliMaxDictionaryWordLength, kBrotliDictionary,
+use brotli::dictionary::{kBrotliMaxDictionaryWordLength, kBrotliMinDictionaryWordLength, kBrotliDictionary,
                                       kBrotliDictionaryOffsetsByLength, kBrotliDictionarySizeBitsByLength};
 use brotli::TransformDictionaryWord;
+use brotli::transform::kNumTransforms;
 pub use super::interface::{Command, Compressor, LiteralCommand, CopyCommand, DictCommand, FeatureFlagSliceType};
 mod test;
 
@@ -294,9 +295,13 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
         if copy_len > u32::from(kBrotliMaxDictionaryWordLength) {
             return DivansOutputResult::Failure(ErrMsg::DictWordSizeTooLarge(dict_cmd.word_size));
         }
-        if dict_cmd.word_id >> kBrotliDictionarySizeBitsByLength[copy_len as usize] != 0 {
+        if copy_len < u32::from(kBrotliMinDictionaryWordLength)
+            || dict_cmd.word_id >> kBrotliDictionarySizeBitsByLength[copy_len as usize] != 0 {
             return DivansOutputResult::Failure(ErrMsg::DictWordIdOutOfBounds(dict_cmd.word_size));
         }
+        if i32::from(dict_cmd.transform) >= kNumTransforms {
+            return DivansOutputResult::Failure(ErrMsg::DictTransformIndexUndefined(dict_cmd.transform));
+        }
         let word_len_category_index = kBrotliDictionaryOffsetsByLength[copy_len as usize] as u32;
         let word_index = (dict_cmd.word_id * copy_len) + word_len_category_index;
         let dict = &kBrotliDictionary;
-- 
2.43.0


From 6112cff26ee011b31d257a042345944fd7649e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 12/25] fix: copy lengths of more than 32 bits in a stream must
 be an error

---
 src/codec/copy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codec/copy.rs b/src/codec/copy.rs
index ebe5d2f..333af1d 100644
--- a/src/codec/copy.rs
+++ b/src/codec/copy.rs
@@ -132,6 +132,10 @@ impl CopyState {
                     if superstate.specialization.adapt_cdf() {
                         nibble_prob.blend(last_nib, Speed::FAST);
                     }
+                    if last_nib > 13 {
+                        // a count has at most 32 bits
+                        return DivansResult::Failure(ErrMsg::CommandCodeOutOfBounds(last_nib));
+                    }
                     superstate.bk.last_clen = last_nib + 19;
                     self.state = CopySubstate::CountMantissaNibbles(0, round_up_mod_4(last_nib + 18), 1 << (last_nib + 18));
                 },
-- 
2.43.0


From 555ebc0b9ec35771f37f6bd6238eaa470079054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 13/25] fix: the IR optimizer must not overflow on short
 distances

---
 src/ir_optimize/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/ir_optimize/mod.rs b/src/ir_optimize/mod.rs
index 405148b..26d9fdf 100644
--- a/src/ir_optimize/mod.rs
+++ b/src/ir_optimize/mod.rs
@@ -44,17 +44,17 @@ pub fn should_merge<SelectedCDF:CDF16,
             //future_hit = i32::from(entry_id);
             match entry_id {
                 0 | 1 | 2 | 3 => actuary.cross_command_state.bk.distance_lru[entry_id as usize] = copy.distance,
-                4 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance - 1,
-                5 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance + 1,
-                6 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance - 1,
-                7 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance + 1,
-                8 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance - 2,
-                9 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance + 2,
-                10 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance - 2,
-                11 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance + 2,
-                12 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance - 3,
-                13 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance + 3,
-                14 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance - 3,
+                4 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_sub(1),
+                5 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_add(1),
+                6 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.wrapping_sub(1),
+                7 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.wrapping_add(1),
+                8 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_sub(2),
+                9 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_add(2),
+                10 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.wrapping_sub(2),
+                11 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.wrapping_add(2),
+                12 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_sub(3),
+                13 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_add(3),
+                14 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.wrapping_sub(3),
                 _ => {},
             }
         }
-- 
2.43.0


From de91fb7614660b83e9d0655eee2bb4ce5c4fdf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 14/25] fix: literal adaptation speeds must not overflow the
 probabilities they adapt

---
 src/probability/interface.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/probability/interface.rs b/src/probability/interface.rs
index af7c3aa..6c5259a 100644
--- a/src/probability/interface.rs
+++ b/src/probability/interface.rs
@@ -329,8 +329,12 @@ impl Speed {
     pub fn to_f8_tuple(&self) -> (u8, u8) {
         (speed_to_u8(self.inc()), speed_to_u8(self.lim()))
     }
+    // beyond these, the sums of a CDF that adapts at this speed no longer fit a Prob
+    const MAX_INC: i16 = 0x1e00;
+    const MAX_LIM: i16 = 0x4000;
     pub fn from_f8_tuple(inp: (u8, u8)) -> Self {
-        Speed::new(u8_to_speed(inp.0), u8_to_speed(inp.1))
+        Speed::new(core::cmp::min(u8_to_speed(inp.0), Self::MAX_INC),
+                   core::cmp::min(u8_to_speed(inp.1), Self::MAX_LIM))
     }
     #[inline(never)]
     #[cold]
@@ -566,7 +570,7 @@ mod test {
 pub fn speed_to_u8(data: i16) -> u8 {
     let length = 16 - data.leading_zeros() as u8;
     let mantissa = if data != 0 {
-        let rem = data - (1 << (length - 1));
+        let rem = i32::from(data) - (1 << (length - 1));
         (rem << 3) >> (length - 1)
     } else {
         0
@@ -578,9 +582,9 @@ pub fn u8_to_speed(data: u8) -> i16 {
     if data < 8 {
         0
     } else {
-        let log_val = (data >> 3) - 1;
-        let rem = (i16::from(data) & 0x7) << log_val;
-        (1i16 << log_val) | (rem >> 3)
+        let log_val = core::cmp::min((data >> 3) - 1, 14);
+        let rem = (i32::from(data) & 0x7) << log_val;
+        (1i16 << log_val) | (rem >> 3) as i16
     }
 }
 #[cfg(test)]
-- 
2.43.0


From f8ce424a060604b53538ffad0670e4590cf0f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 15/25] fix: a prior depth that does not fit a nibble must not
 make the stream undecodable

---
 src/codec/interface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/interface.rs b/src/codec/interface.rs
index 79fd45c..e6015ce 100644
--- a/src/codec/interface.rs
+++ b/src/codec/interface.rs
@@ -365,7 +365,7 @@ impl<
             },
         }
         CrossCommandBookKeeping{
-            desired_prior_depth:prior_depth,
+            desired_prior_depth: core::cmp::min(prior_depth, 15), // has to fit a nibble
             desired_literal_adaptation: literal_adaptation_speed,
             desired_context_mixing:dynamic_context_mixing,
             last_dlen: 1,
-- 
2.43.0


From b8484fc47bb47a87c47c080d2a51fd2e85fa1974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:17 +0000
Subject: [PATCH 16/25] fix: the C API must reject context mixing values that
 would make the compressor panic

---
 src/ffi/compressor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ffi/compressor.rs b/src/ffi/compressor.rs
index 7c4b7dd..5059c1e 100644
--- a/src/ffi/compressor.rs
+++ b/src/ffi/compressor.rs
@@ -69,7 +69,12 @@ impl CompressorState {
                 DIVANS_OPTION_STRIDE_DETECTION_QUALITY => {opts.stride_detection_quality = Some(value as u8);},
                 DIVANS_OPTION_PRIOR_BITMASK_DETECTION => {opts.prior_bitmask_detection = value as u8},
                 DIVANS_OPTION_SPEED_DETECTION_QUALITY => {opts.speed_detection_quality = Some(value as u8);},
-                DIVANS_OPTION_DYNAMIC_CONTEXT_MIXING => {opts.dynamic_context_mixing = Some(value as u8);},
+                DIVANS_OPTION_DYNAMIC_CONTEXT_MIXING => {
+                    if value >= 8 {
+                        return DIVANS_FAILURE;
+                    }
+                    opts.dynamic_context_mixing = Some(value as u8);
+                },
                 DIVANS_OPTION_USE_BROTLI_COMMAND_SELECTION => {opts.use_brotli = match value {
                     0 => BrotliCompressionSetting::UseInternalCommandSelection,
                     1 => BrotliCompressionSetting::UseBrotliCommandSelection,
-- 
2.43.0


From 120db34a35016c6898d027b9919f127c6e53332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 17/25] fix: C06 return the data buffer a released decoder was
 still reading from

Handing it to the worker's result slots while everything was being
released put it where nobody would free it any more.
---
 src/threading.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/threading.rs b/src/threading.rs
index 88c87ce..a16fa6b 100755
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -381,7 +381,6 @@ impl<AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>> StreamDemuxer
     #[inline(always)]
     fn free_demux(&mut self, m8: &mut AllocU8){
         if self.slice.0.slice().len() != 0 {
-            self.worker.push_consumed_data(&mut self.slice, None);
             m8.free_cell(core::mem::replace(&mut self.slice.0, AllocU8::AllocatedMemory::default()));
         }
     }
-- 
2.43.0


From 2170321f39f29b26bf2f969efe012ce0308ad6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 18/25] fix: C06 dropping a multi-threaded decompressing reader
 or writer ends its thread

The worker thread waited for input for good and kept its memory when the
adapter was dropped before the end of the stream.
---
 src/reader.rs | 5 +++++
 src/writer.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 121d8a9..1447aa7 100755
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -301,6 +301,11 @@ impl<R:Read> Read for DivansDecompressorReader<R> {
         self.0.read(buf)
     }
 }
+impl<R:Read> Drop for DivansDecompressorReader<R> {
+    fn drop(&mut self) {
+        self.0.compressor.free_ref(); // ends the worker thread if it still waits for data
+    }
+}
 impl<R:Read> DivansDecompressorReader<R> {
     pub fn new(reader: R, mut buffer_size: usize, skip_crc:bool, multithread:bool) -> Self {
        if buffer_size == 0 {
diff --git a/src/writer.rs b/src/writer.rs
index 7806913..358ac5f 100755
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -263,6 +263,11 @@ impl<W:Write> Write for DivansDecompressorWriter<W> {
         self.0.flush()
     }
 }
+impl<W:Write> Drop for DivansDecompressorWriter<W> {
+    fn drop(&mut self) {
+        self.0.compressor.free_ref(); // ends the worker thread if it still waits for data
+    }
+}
 impl<W:Write> DivansDecompressorWriter<W> {
     pub fn new(writer: W, mut buffer_size: usize, skip_crc:bool, multithread: bool) -> Self {
        if buffer_size == 0 {
-- 
2.43.0


From 831503a5736a6bd9d712fd79b0a35d52cd9072c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 19/25] fix: C06 a command that cannot be handed over when the
 decoder is released gives its buffers back

---
 src/codec/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codec/mod.rs b/src/codec/mod.rs
index 00fd7fb..87ab730 100755
--- a/src/codec/mod.rs
+++ b/src/codec/mod.rs
@@ -325,7 +325,8 @@ impl<AllocU8: Allocator<u8>,
         self.cross_command_state.thread_ctx.m8().unwrap().use_cached_allocation::<UninitializedOnAlloc>().free_cell(
             core::mem::replace(&mut self.state_lit.lc,
                                LiteralCommand::<AllocatedMemoryPrefix<u8, AllocU8>>::nop()).data);
-
+        free_cmd(&mut self.state_populate_ring_buffer, // a command that could not be passed on any more
+                 &mut self.cross_command_state.thread_ctx.m8().unwrap().use_cached_allocation::<UninitializedOnAlloc>());
         self.state_prediction_mode.free(self.cross_command_state.thread_ctx.m8().unwrap());
         self.cross_command_state.free_ref()
     }
-- 
2.43.0


From 45aceb4ac2f94e3ceed221e8324e8114dcfa1966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 20/25] fix: C16 checkout_next_buffer returns at least the size
 asked for

---
 src/resizable_buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resizable_buffer.rs b/src/resizable_buffer.rs
index e7708dc..e33d39e 100644
--- a/src/resizable_buffer.rs
+++ b/src/resizable_buffer.rs
@@ -34,9 +34,9 @@ impl<T:Sized+Default+Clone, AllocT: Allocator<T>> ResizableByteBuffer<T, AllocT>
     }
     fn ensure_free_space_in_buffer(&mut self, allocator: &mut AllocT, min_size: usize) {
         if self.data.slice().is_empty() {
-            self.data = allocator.alloc_cell(66_000); // some slack room to deal with worst case compression sizes
+            self.data = allocator.alloc_cell(core::cmp::max(66_000, min_size)); // some slack room to deal with worst case compression sizes
         } else if self.size + min_size > self.data.slice().len() {
-            let mut cell = allocator.alloc_cell(self.size * 2);
+            let mut cell = allocator.alloc_cell(core::cmp::max(self.size * 2, self.size + min_size));
             cell.slice_mut().split_at_mut(self.size).0.clone_from_slice(self.data.slice().split_at(self.size).0);
             allocator.free_cell(core::mem::replace(&mut self.data, cell));
         }
-- 
2.43.0


From 5058236aede2114529f108d5265d6bf415f756f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 21/25] fix: C14 the option setter refuses literal context
 modes that do not exist, and any nonzero Q9_5 turns it on

---
 src/ffi/compressor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ffi/compressor.rs b/src/ffi/compressor.rs
index 5059c1e..3382c30 100644
--- a/src/ffi/compressor.rs
+++ b/src/ffi/compressor.rs
@@ -1,6 +1,6 @@
 use ::brotli;
 use ::interface::{DivansResult, DivansOutputResult};
-use ::brotli::enc::interface::LiteralPredictionModeNibble;
+use ::brotli::enc::interface::{LiteralPredictionModeNibble, LITERAL_PREDICTION_MODE_SIGN};
 
 use core;
 use ::interface::{DivansCompressorOptions, BrotliCompressionSetting, StrideSelection, DivansCompressorFactory, Compressor};
@@ -155,9 +155,12 @@ impl CompressorState {
                     opts.prior_depth = Some(value as u8);
                 },
                 DIVANS_OPTION_Q9_5 => {
-                    opts.q9_5 = value as u8 != 0;
+                    opts.q9_5 = value != 0;
                 },
                 DIVANS_OPTION_FORCE_LITERAL_CONTEXT_MODE => {
+                    if value > u32::from(LITERAL_PREDICTION_MODE_SIGN) {
+                        return DIVANS_FAILURE;
+                    }
                     opts.force_literal_context_mode = Some(LiteralPredictionModeNibble(value as u8));
                 },
                 DIVANS_OPTION_IR_OPTIMIZER => {
-- 
2.43.0


From 8e8e98f7a7130c509c5518713d031dc919df014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 22/25] fix: C20 the tool must not report success when its
 output could not be written

---
 src/bin/divans.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/divans.rs b/src/bin/divans.rs
index cf2f306..e3359fd 100644
--- a/src/bin/divans.rs
+++ b/src/bin/divans.rs
@@ -604,7 +604,7 @@ fn recode_inner<Reader:std::io::BufRead,
         }
     }
 
-    Ok(())
+    w.flush()
 }
 
 fn allowed_command(_cmd: &Command<ItemVec<u8>>, _last_literal_switch: &mut divans::LiteralBlockSwitch) -> bool {
@@ -705,7 +705,7 @@ fn compress_inner<Reader:std::io::BufRead,
             }
         }
     }
-    Ok(())
+    w.flush()
 }
 fn compress_raw_inner<Compressor: divans::interface::Compressor,
                       Reader:std::io::Read,
@@ -823,7 +823,7 @@ fn compress_raw_inner<Compressor: divans::interface::Compressor,
     let mut m8 = free_state(compress_state);
     m8.free_cell(ibuffer);
     m8.free_cell(obuffer);
-    Ok(())
+    w.flush()
 }
 
 
@@ -1102,7 +1102,7 @@ fn decompress_generic<Reader:std::io::Read,
             }
         }
     }
-    Ok(())
+    w.flush()
 }
 
 fn recode<Reader:std::io::BufRead,
-- 
2.43.0


From 778d48ba2ab51098d61964b9dcffb47af77ca30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 23/25] fix: C20 numbers of the textual form that do not fit
 their field are refused

---
 src/bin/divans.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bin/divans.rs b/src/bin/divans.rs
index e3359fd..bdc484e 100644
--- a/src/bin/divans.rs
+++ b/src/bin/divans.rs
@@ -322,8 +322,8 @@ fn command_parse(s : &str) -> Result<Option<Command<ItemVec<u8>>>, io::Error> {
             return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                       "*type needs 1 argument"));
         }
-        let block_type = match command_vec[1].parse::<u32>() {
-            Ok(el) => el as u8,
+        let block_type = match command_vec[1].parse::<u8>() {
+            Ok(el) => el,
             Err(msg) => {
                 return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                           msg.description()));
@@ -386,13 +386,13 @@ fn command_parse(s : &str) -> Result<Option<Command<ItemVec<u8>>>, io::Error> {
             return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                       "dict needs 6+ arguments"));
         }
-        let expected_len = match command_vec[1].parse::<u32>() {
+        let expected_len = match command_vec[1].parse::<u8>() {
             Ok(el) => el,
             Err(msg) => {
                 return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                           msg.description()));
             }
-        } as u8;
+        };
         if command_vec[2] != "word" {
             return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                       s.to_string() + " needs a word after the expected len"));
@@ -402,13 +402,13 @@ fn command_parse(s : &str) -> Result<Option<Command<ItemVec<u8>>>, io::Error> {
             return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                       s.to_string() + " needs a comma separated word value"));
         }
-        let word_len = match word_id[0].parse::<u32>() {
+        let word_len = match word_id[0].parse::<u8>() {
             Ok(el) => el,
             Err(msg) => {
                 return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                           msg.description()));
             }
-        } as u8;
+        };
         let word_index = match word_id[1].parse::<u32>() {
             Ok(el) => el,
             Err(msg) => {
@@ -418,13 +418,13 @@ fn command_parse(s : &str) -> Result<Option<Command<ItemVec<u8>>>, io::Error> {
         };
         for index in 5..command_vec.len() {
             if command_vec[index - 1] == "func" {
-                let transform = match command_vec[index].parse::<u32>() {
+                let transform = match command_vec[index].parse::<u8>() {
                     Ok(el) => el,
                     Err(msg) => {
                         return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                                   msg.description()));
                     }
-                } as u8;
+                };
                 return Ok(Some(Command::Dict(DictCommand{
                     word_size:word_len,
                     word_id:word_index,
-- 
2.43.0


From 57c30471143e496c2a319c3c17cd74616eadfd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 24/25] hook: name ProbRange for the verification harness (cfg
 divans_verif)

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 54137db..6627448 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,6 +109,8 @@ pub use writer::DivansDecompressorWriter;
 
 
 pub use probability::Speed;
+#[cfg(divans_verif)]
+pub use probability::ProbRange;
 
 
 pub use probability::CDF2;
-- 
2.43.0


From 2b643bd1217427986bd208564dc7a1140123a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 25/25] fix: decoding a malformed stream with overflow checks
 on no longer panics in the ANS state update

---
 src/ans.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ans.rs b/src/ans.rs
index 452e4a7..5647d18 100644
--- a/src/ans.rs
+++ b/src/ans.rs
@@ -234,7 +234,8 @@ impl ANSDecoder {
         self.buffer_a_bytes_required = self.buffer_b_bytes_required;
         // if we've run out of symbols to decode, we don't care what buffer_a's value is, we just clear state and start fresh
         self.buffer_a_bytes_required |= ((u64::from(self.sym_count) == u64::from(NUM_SYMBOLS_BEFORE_FLUSH - 1)) as u8) << 3;
-        let x = (freq as u64) * (self.state_a >> LOG2_SCALE) + (self.state_a & SCALE_MASK) - start as u64;
+        // a malformed stream can lead to a state this over- or underflows for
+        let x = (freq as u64).wrapping_mul(self.state_a >> LOG2_SCALE).wrapping_add(self.state_a & SCALE_MASK).wrapping_sub(start as u64);
         self.sym_count = self.sym_count.wrapping_add(1);
         // if we ran out of data in our state, we setup buffer_b to require pull from our wordstream
         self.buffer_b_bytes_required = (x < NORMALIZATION_INTERVAL) as u8; // mark to need 4 bytes to continue
-- 
2.43.0

