#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it can be reviewed as text)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Compression is lossless for every input and every option setting",
  "Whatever bytes are compressed, with whichever compressor (the default one or the internal one) and whichever valid combination of options (quality, window, block size, priors, strides, speeds, mixing, context maps, optimizer), decompressing the result reports success and returns exactly the original bytes.",
  ["inputs", "configurations"], "all byte strings (including empty, incompressible, longer than the window) x all valid option combinations x both compressors",
  "Tests round-trip a few fixed files with a handful of option sets; the option space is a product of a dozen parameters and several code paths (strides, mixing, speeds, priors, optimizer, window wrap) only meet for particular inputs.",
  ["src/brotli_ir_gen.rs", "src/divans_compressor.rs", "src/divans_decompressor.rs", "src/codec/", "src/raw_to_cmd/mod.rs", "src/cmd_to_raw/mod.rs", "src/ir_optimize/", "src/probability/", "src/ans.rs"],
  [("encoder and decoder run the same adaptive model in lock step", "src/codec/mod.rs encode_or_decode_one_command"), ("literal contexts and mixing", "src/codec/literal.rs")],
  ["the bytes and the verdict of the decompressor"])
p("C02", "Decompression does not depend on how its input and output are cut up",
  "For every stream, valid or not, whether it is accepted is the same however the input is split into pieces and whatever output space each call offers, including one byte at a time, and so are, for a complete stream, the bytes produced and the number of input bytes consumed; what is delivered of an incomplete or malformed stream agrees as far as it goes, a proper beginning of a valid stream is never called malformed, and no split makes decoding stop making progress.",
  ["inputs", "histories"], "all streams x all sequences of (input piece, output space) sizes, with and without threads",
  "Tests use a few fixed buffer sizes; every resumption point of the header, slice headers, entropy coder, commands, ring buffer, flush and trailer is a separate state that only some split reaches.",
  ["src/divans_decompressor.rs", "src/codec/decoder.rs", "src/mux.rs", "src/cmd_to_raw/mod.rs", "src/codec/io.rs", "src/parallel_decompressor.rs"],
  [("resumable header parser", "src/divans_decompressor.rs HeaderParser"), ("resumable recoder", "src/cmd_to_raw/mod.rs"), ("resumable demultiplexer", "src/mux.rs deserialize")],
  ["every decode call: offered and used input/output, result"])
p("C03", "Compressed output is deterministic and independent of buffer splitting",
  "Compressing the same bytes with the same options with the default compressor yields the same compressed bytes however input is split over calls, however small the output buffers are, and whatever other compressors or decompressors ran before or in between; the internal compressor, whose output may legitimately vary with splitting, still yields a stream that decompresses to the input for every splitting and is itself reproducible.",
  ["inputs", "histories"], "all inputs x all sequences of input/output buffer sizes x interleavings with other instances",
  "Tests compress with one or two buffer sizes and never compare two runs byte for byte; resumption inside the encoder (header, buffered commands, ring buffer, multiplexer, flush) depends on the exact split.",
  ["src/divans_compressor.rs", "src/brotli_ir_gen.rs", "src/raw_to_cmd/mod.rs", "src/codec/mod.rs", "src/mux.rs", "src/resizable_buffer.rs"],
  [("header progress counter", "src/divans_compressor.rs write_header"), ("commands set aside when output is full", "src/divans_compressor.rs freeze_dry"), ("pending byte buffer", "src/brotli_ir_gen.rs divans_data")],
  ["the concatenated output bytes"])
p("C04", "Threaded and single-threaded decoding give the same answer",
  "For every byte string given to it, the multi-threaded decompressor accepts exactly the streams the single-threaded one accepts, produces the same bytes and uses the same input for them, delivers nothing of any other stream that contradicts what the other delivers, and never lets a stream the other rejects or finds incomplete end in success.",
  ["inputs", "schedules"], "all streams (valid, truncated, corrupted) x all thread schedules x all buffer sizes",
  "The two engines share the codec but not the hand-off; tests run the threaded one on a few valid files under whatever schedule the machine happens to choose.",
  ["src/parallel_decompressor.rs", "src/multithreading.rs", "src/threading.rs", "src/codec/decoder.rs"],
  [("command stream decoded by a worker thread, literals by the caller's", "src/parallel_decompressor.rs")],
  ["bytes and verdict of both engines on the same input"])
p("C05", "The decoder's thread hand-off never loses, reorders, duplicates or deadlocks",
  "Between the thread that receives input and the thread that decodes commands, every data buffer, context map, command batch, returned buffer, end marker and error is delivered exactly once and in order, and under every schedule each side's wait is eventually ended by the other, so a decode call always returns.",
  ["schedules", "fault_sequences"], "all interleavings of the two threads' critical sections, waits and wake-ups, including errors, early end of data and release at any point",
  "A lost wake-up or a dropped buffer needs one particular interleaving; tests observe one schedule per run and have no fault injection.",
  ["src/multithreading.rs", "src/threading.rs", "src/parallel_decompressor.rs"],
  [("one mutex-protected exchange plus a condition variable signalled when the other side is waiting", "src/multithreading.rs MultiWorker"), ("batching of commands on the worker side", "src/multithreading.rs BufferedMultiWorker::force_push")],
  ["each critical section of the exchange, recorded while its lock is held"],
  [("waiters", "threads blocked on the exchange", "src/threading.rs SerialWorker")],
  "event recorder in src/multithreading.rs, cfg(verif_trace)")
p("C06", "Releasing a codec at any moment terminates and returns every allocation once",
  "At whatever point of its life a compressor or decompressor is released - before any call, mid-header, mid-stream, after an error, after completion, single- or multi-threaded, through the native or the C interface - the release returns, and every block obtained from the caller's allocator has been given back to it exactly once and is never touched again.",
  ["histories", "crash_points", "schedules"], "all streams x all release points x both engines x both compressors x all errors",
  "Tests free codecs after complete runs only and use allocators that do not count; leaks and double frees on error paths leave no trace in test results.",
  ["src/divans_decompressor.rs", "src/parallel_decompressor.rs", "src/codec/interface.rs", "src/codec/decoder.rs", "src/alloc_util.rs", "src/brotli_ir_gen.rs", "src/divans_compressor.rs", "src/ffi/alloc_util.rs"],
  [("explicit free chain through codec, worker, recoder, mux and coder", "src/codec/mod.rs free / join / free_ref")],
  ["every allocator call and the return of the release call"])
p("C07", "A damaged, truncated or altered stream is never reported as complete",
  "With integrity checking enabled, no proper prefix of a compressed stream and no stream with changed bytes is ever reported as successfully decoded, and bytes of a mere prefix are always a prefix of the original data; with checking disabled only the four checksum bytes themselves lose their protection.",
  ["inputs", "fault_sequences"], "all streams x all truncation points x all single/multi byte or bit changes x both engines",
  "Tests corrupt nothing; whether a given change is caught depends on which bytes enter the checksum, in what order, and on every early-exit path.",
  ["src/codec/decoder.rs", "src/codec/crc32.rs", "src/codec/mod.rs", "src/divans_decompressor.rs", "src/mux.rs"],
  [("CRC-32C over header and multiplexed bytes, compared at the end", "src/codec/decoder.rs process_eof"), ("constant tail of the trailer", "src/codec/decoder.rs")],
  ["verdict and output of the decompressor"])
p("C08", "No input can crash, hang or stall the decompressor",
  "For every byte string, every call of the decompressor returns: it never panics, never loops without progress and never asks for more input or output space without having used what it was given; malformed data ends in an error or in a request for more input, never in a command that reads outside the window, the dictionary or a table.",
  ["inputs"], "all byte strings, with integrity checking on or off, both engines; all symbol sequences the command layer can be fed",
  "Tests feed only well-formed streams; the malformed space is every reachable combination of symbol values in every decoder state.",
  ["src/codec/", "src/cmd_to_raw/mod.rs", "src/mux.rs", "src/divans_decompressor.rs", "src/threading.rs"],
  [("range checks on every decoded field", "src/codec/copy.rs, dict.rs, context_map.rs, block_type.rs"), ("distance and dictionary checks when replaying commands", "src/cmd_to_raw/mod.rs")],
  ["results of each call; panics; progress"])
p("C09", "The stream multiplexer preserves both streams exactly",
  "Whatever is appended to the two sub-streams in whatever pieces, and however small the buffers into which they are serialised, splitting the serialised bytes again (in any pieces) yields exactly each sub-stream's bytes in order, complete once closed, followed by exactly one end marker; neither side ever loses, duplicates or exchanges bytes, and serialising moves data on whenever enough is pending.",
  ["inputs", "histories"], "all interleavings of appends, partial serialisations, closes, deliveries and consumptions, all sizes around every slice-size and lag threshold",
  "Tests use a few fixed patterns; the slice header form, buffer compaction, lag rule and leftovers depend on the exact history of sizes.",
  ["src/mux.rs", "src/slice_util.rs"],
  [("slice headers and leftovers", "src/mux.rs serialize_stream_id / serialize_leftover"), ("compaction and growth", "src/mux.rs prep_push_for_n_bytes"), ("resumable parser", "src/mux.rs deserialize")],
  ["bytes in and out of each call, pending counts"],
  [("last_flush, bytes_flushed", "how far each stream lags", "src/mux.rs Mux")])
p("C10", "Replaying commands yields the bytes they mean, in any output space",
  "Replaying a sequence of literal, copy and dictionary commands produces exactly the bytes these commands denote (copies may overlap themselves and reach back up to the window; dictionary words are transformed as the format says), independently of how much output space each call offers and of where the window wraps; a copy of distance zero or from beyond the window, or a dictionary word or transform that does not exist, is reported as an error and never guessed at, and what precedes the start of data reads as the zeros the window is filled with.",
  ["inputs", "histories"], "all command sequences x all output chunkings x all window sizes",
  "Tests replay a few recorded command files with large buffers; overlap, wrap-around and resumption in the middle of a command interact only for particular distances, lengths and splits.",
  ["src/cmd_to_raw/mod.rs"],
  [("ring buffer with separate write and output positions", "src/cmd_to_raw/mod.rs DivansRecodeState")],
  ["bytes produced per call, result per call"])
p("C11", "Streaming calls keep their contract on offsets, progress and completion",
  "Each streaming call only ever advances the offsets it is given, within the buffers; it asks for input only after using all it had, asks for output space only after filling what it had, reports completion only after the last byte has been delivered, and once complete stays complete and leaves any following bytes untouched.",
  ["histories", "inputs"], "all call histories on valid streams, including calls with empty buffers, after completion, and with trailing bytes",
  "Tests stop at the first success and never call with empty buffers, after completion or with trailing data.",
  ["src/divans_decompressor.rs", "src/divans_compressor.rs", "src/brotli_ir_gen.rs", "src/codec/decoder.rs", "src/parallel_decompressor.rs"],
  [("offset bookkeeping in decode/encode/flush", "src/codec/decoder.rs decode_process_input, src/divans_compressor.rs")],
  ["every encode/flush/decode call"])
p("C12", "Every compressed stream follows the container format, byte for byte",
  "Every stream any compressor produces consists of the magic header carrying the window size used, well-formed slices of exactly two sub-streams, one end marker, and a trailer holding the CRC-32C of everything before it and the closing tag - and nothing else; and the decompressor accepts a stream of this shape however legally its sub-streams are sliced.",
  ["inputs", "configurations", "histories"], "all inputs, options and output splittings; all legal re-slicings",
  "Tests never look at the bytes of the container; they only check that encoder and decoder agree with each other, which a symmetric mistake preserves.",
  ["src/divans_compressor.rs", "src/mux.rs", "src/codec/mod.rs", "src/codec/crc32.rs", "src/divans_decompressor.rs"],
  [("header writer/parser", "src/divans_compressor.rs make_header"), ("slice codes", "src/mux.rs get_code"), ("checksum trailer", "src/codec/mod.rs flush")],
  ["the compressed bytes"])
p("C13", "Reader and writer adapters are transparent to how the other side behaves",
  "Compressing or decompressing through the read and write adapters gives the same bytes as the streaming interface whatever read sizes, short reads or short writes, interruptions and buffer sizes occur; after the end a reader keeps reporting end of data, errors of the underlying stream are passed on, and a malformed or truncated stream makes a decompressing reader fail rather than end normally.",
  ["histories", "fault_sequences", "configurations"], "all behaviours of the underlying stream (sizes, interruptions, errors), all caller buffer sizes, all three adapters of each kind",
  "Tests use in-memory streams that always transfer everything and buffers large enough; short transfers, interruptions and errors never occur.",
  ["src/reader.rs", "src/writer.rs"],
  [("input refill and output drain loops", "src/reader.rs GenReader::read, src/writer.rs GenWriter")],
  ["every read/write/flush call on both sides"])
p("C14", "The C interface behaves like the native one and validates its arguments",
  "Through the C functions every input round-trips with the documented meaning of result codes and offsets for every option accepted by the option setter; memory comes only from the allocator callbacks supplied and all of it is returned when the state is freed; options are rejected, not misapplied, when unknown, outside an enumerated set or set after compression has started.",
  ["histories", "configurations", "inputs"], "all option settings x call histories x buffer sizes, with default and custom allocators, null and freed handles where allowed",
  "The only test of the C interface is an example program run by hand with default options.",
  ["src/ffi/mod.rs", "src/ffi/compressor.rs", "src/ffi/decompressor.rs", "src/ffi/alloc_util.rs", "c/"],
  [("option table", "src/ffi/compressor.rs set_option"), ("sub-allocator over C callbacks", "src/ffi/alloc_util.rs")],
  ["arguments and results of every C call, allocator callbacks"])
p("C15", "Finishing a stream is final, complete and repeatable",
  "Flushing a compressor, in however many calls the output space requires, ends in success exactly when the whole stream including its trailer has been delivered; flushing again delivers nothing more and succeeds, and a compressor that received no data still produces a valid stream that decompresses to nothing.",
  ["histories", "inputs"], "all histories of encode, command-encode and flush calls with any output sizes, for both compressors",
  "Tests flush once with a big buffer and never call anything afterwards.",
  ["src/divans_compressor.rs", "src/brotli_ir_gen.rs", "src/codec/mod.rs", "src/mux.rs"],
  [("staged finishing: commands, coder close, end marker, checksum", "src/codec/mod.rs flush")],
  ["every flush call and the bytes it delivers"])
p("C16", "Buffer and allocator helpers preserve content and ownership",
  "The growable byte buffer always holds exactly the bytes committed to it, in order, whatever sizes are requested and committed; the recycling allocator hands out memory of at least the requested size, never hands the same memory out twice at once, and returns it all to the base allocator; byte ranges and prefixes expose exactly the range they denote.",
  ["histories"], "all sequences of checkout/commit/allocate/free/recycle operations and sizes",
  "There is no test of growth across several doublings, of reuse with a smaller or larger request, or of zero sizes.",
  ["src/resizable_buffer.rs", "src/alloc_util.rs", "src/slice_util.rs"],
  [("doubling growth", "src/resizable_buffer.rs"), ("single cached block", "src/alloc_util.rs RepurposingAlloc")],
  ["results of each operation, base allocator calls"])
p("C17", "Every valid command sequence survives encoding and decoding",
  "Any valid sequence of literal, copy, dictionary, block-switch and prediction-mode commands given to a compressor decodes to exactly the bytes the sequence denotes, for every field value the format allows and every adaptive state the preceding commands can have produced.",
  ["programs", "histories"], "all command sequences: literal lengths, copy lengths and distances, dictionary words and transforms, block types, context maps, prediction modes, speeds and mixing values",
  "Tests encode a few recorded command files; field encodings change form at many length/distance boundaries and depend on the recent-distance, block-type and context-map histories.",
  ["src/codec/mod.rs", "src/codec/copy.rs", "src/codec/dict.rs", "src/codec/literal.rs", "src/codec/block_type.rs", "src/codec/context_map.rs", "src/codec/interface.rs"],
  [("per-command nibble encodings", "src/codec/copy.rs, dict.rs, literal.rs, block_type.rs, context_map.rs"), ("distance and block-type histories", "src/codec/interface.rs CrossCommandBookKeeping")],
  ["decoded bytes for a given command sequence"])
p("C18", "The entropy coder inverts itself and its models stay valid probabilities",
  "Whatever sequence of symbols and bits is coded with whatever sequence of models, decoding with the same models returns the same sequence, however the coded bytes are cut up; every adaptive model keeps, after any update history at adaptation speeds the format can carry, a positive share for every symbol and shares that add up to its total.",
  ["inputs", "histories", "configurations"], "all symbol sequences x all model states x all speeds x all splits of the coded bytes",
  "Tests code a few fixed sequences with two or three speeds; the rare carries, renormalisations and saturated tables depend on long histories.",
  ["src/ans.rs", "src/probability/", "src/arithmetic_coder.rs"],
  [("range ANS with reversed blocks", "src/ans.rs"), ("adaptive cumulative tables", "src/probability/opt_frequentist_cdf.rs, frequentist_cdf.rs, blend_cdf.rs")],
  ["symbols in and out, table contents"])
p("C19", "Streams written by this version stay readable and mean the same",
  "Every stream written by the released encoder, covering each option and command form, decodes to the same bytes; the meaning of every symbol of the command layer - which symbols encode a command, in which order, given the preceding commands - is fixed by the format and does not change.",
  ["programs", "configurations"], "all command forms and options of the format as released",
  "Tests only check that the current encoder and decoder agree with each other, so any change made on both sides passes while making all stored data unreadable.",
  ["src/codec/", "src/probability/", "src/ans.rs", "src/mux.rs", "src/codec/priors.rs", "src/constants.rs"],
  [("symbol sequence of each command", "src/codec/*.rs encode_or_decode"), ("model initial values and adaptation", "src/codec/weights.rs, src/probability")],
  ["decoded bytes of stored streams; symbols per command"])
p("C20", "The command line tool reports success only when its output is right",
  "Compressing and decompressing files or pipes with the tool reproduces the input for every accepted option, and the tool exits with a failure status whenever its input is malformed, truncated or unreadable; translating a stream to the textual command form and back yields the same data.",
  ["inputs", "configurations", "fault_sequences"], "all inputs x accepted options x file/pipe modes x damaged inputs",
  "Tests call internal functions of the tool with fixed files; exit status, option parsing and damaged input are never exercised.",
  ["src/bin/divans.rs", "src/bin/util.rs"],
  [("argument parsing and error propagation", "src/bin/divans.rs main")],
  ["exit status and produced files"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
