#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

E, W, H, Q, IB, LIB = "src/encoder.rs", "src/writer.rs", "src/huffman.rs", "src/quantization.rs", "src/image_buffer.rs", "src/lib.rs"

p("C01", "Every valid encode succeeds and yields a complete, conforming JPEG",
  "For every image, colour type and configuration the API accepts, encoding terminates without panicking, returns success, and writes exactly one complete JPEG stream that a strict T.81 decoder accepts: correct segment lengths and table definitions, every code word defined, byte stuffing and 1-padding correct, every scan holding exactly its MCUs, every coefficient of every component sent exactly once, EOI last and nothing after it.",
  ["inputs", "configurations"], "all colour types x sampling factors x modes (baseline, progressive 2..64, optimised tables) x restart intervals x qualities and tables x image dimensions x image content",
  "The tests encode two smooth gradient images of fixed size (258x128, 258x192) plus one 1x1 image in about fifteen configurations; edge geometries, other scan counts, code words, bit alignments and table shapes are never reached.",
  [E, W, H, "src/marker.rs"],
  [("scan encoders", E + ": encode_image_interleaved / _sequential / _progressive"), ("bit writer with stuffing", W + ": write_bits, write_bit_buffer, finalize_bit_buffer"), ("block coder", W + ": write_block, write_dc, write_ac_block"), ("segment writers", W + ": write_*_segment, write_frame_header, write_scan_header")],
  ["bytes passed to the writer", "Result of Encoder::encode / encode_image"],
  [("bit buffer", "pending bits and free bit count of the 64-bit buffer", W + ": JfifWriter")])

p("C02", "Decoded image equals the source within quantisation error",
  "Every quantised coefficient in the stream, dequantised with the table in the stream, equals the DCT coefficient of the source block (colour converted, chroma point-sampled at the top-left pixel of each subsampling cell, right and bottom edges extended by replicating the last column and row) to within half a quantisation step plus an arithmetic error of at most a sixth of a step and a quarter of a grey level.  This holds in every colour type, sampling factor, size and mode, so no block is lost, displaced, mixed up between components or transposed.",
  ["inputs", "configurations"], "all image contents, dimensions, colour types, sampling factors, quantisation tables and modes",
  "Tests compare decoded pixels of smooth gradients with a tolerance of 20 grey levels; two fixed blocks pin the DCT.",
  [E, "src/fdct.rs", Q, IB],
  [("block extraction and edge replication", E + ": get_block, encode_blocks, encode_image_interleaved"), ("forward DCT", "src/fdct.rs: fdct"), ("quantiser", Q + ": quantize, compute_reciprocal"), ("zigzag order", W + ": ZIGZAG")],
  ["quantised coefficients and DQT tables parsed from the stream"])

p("C03", "Coding mode never changes the image: same coefficients in every mode",
  "For a given image, colour type, sampling factor and quantisation tables, the quantised coefficients recovered from the stream are identical whichever lossless coding options are chosen: baseline or progressive with any number of scans, default or optimised Huffman tables, any restart interval, with or without extra segments.",
  ["inputs", "configurations"], "all images x all pairs of coding options",
  "Each mode is tested on its own image run with a tolerance of 20 grey levels; no test compares modes, and most combinations (e.g. optimised with restarts) are never run.",
  [E, W],
  [("interleaved, sequential and progressive encoders share the block pipeline", E + ": encode_image_interleaved, encode_blocks"), ("Huffman optimisation", E + ": optimize_huffman_table")],
  ["quantised coefficients parsed from the stream"])

p("C04", "Restart markers appear exactly at every restart interval, and resynchronise",
  "If a non-zero restart interval N is configured the stream declares N, and in every scan there is exactly one restart marker between consecutive groups of N MCUs, numbered cyclically 0 to 7 from 0 in each scan, with none after the last MCU; every group starts on a byte boundary with all DC predictions reset, so it decodes on its own.  If the interval is zero or unset there is neither a declaration nor any marker.",
  ["inputs", "configurations"], "all restart intervals 0..65535 x modes x colour types x sampling x image sizes x content",
  "Three tests use interval 32 on one gradient image and only check that the declaration is present and the picture decodes approximately.",
  [E, W],
  [("restart counters in each of the four scan loops", E + ": encode_image_interleaved, encode_image_sequential, encode_image_progressive"), ("bit buffer flush", W + ": finalize_bit_buffer")],
  ["DRI and RST markers in the stream and the MCU index at each"],
  [("restarts, restarts_to_go", "cyclic marker number and MCUs left in the interval", E)])

p("C05", "Optimised Huffman tables are valid, complete and minimal",
  "With optimised tables enabled, every Huffman table written is a valid JPEG prefix code (no code longer than 16 bits, no all-ones code, no repeated symbol) that has a code for every symbol the image needs, in every mode and with every restart interval, for every distribution of symbols however skewed.  The coded data is never longer than the default tables would make it, and when no length limit binds it is as short as any Huffman code that leaves the all-ones code unused.",
  ["inputs", "configurations"], "all symbol histograms an image can produce, including those whose unrestricted Huffman code exceeds 16 bits and 32 bits, x modes x restart intervals",
  "Two gradients and one 1x1 image are encoded with optimised tables; length limiting is never triggered and restart intervals are never combined with it.",
  [H, E],
  [("Annex K.2 code construction and length limiting", H + ": new_optimized"), ("symbol statistics", E + ": optimize_huffman_table")],
  ["DHT segments and symbol histograms parsed from the stream"])

p("C06", "Writer failures are reported and never leave a gap in the output",
  "If the writer fails or stops accepting data at any byte offset, or fails when flushed at the end, encoding returns an error carrying the writer's own error (as its source and in its text) and does not panic; success is returned only if every byte was accepted and flushed.  Whatever the writer does, including failing once and then accepting again, the bytes it accepted are a prefix of the stream that an unfailing writer receives, and short writes and interrupted writes change nothing.",
  ["fault_sequences", "inputs", "configurations"], "every byte offset of the output x fault kind (permanent error, one-shot error, zero-length write, interruption, short writes of every size, flush error) x configurations covering every write path",
  "All tests write to an in-memory vector that cannot fail.",
  [W, E, "src/error.rs"],
  [("error propagation with ?", E + " and " + W), ("JfifWrite for std::io::Write", W + ": impl JfifWrite"), ("final flush", E + ": encode_image_internal")],
  ["calls made on the writer", "Result of encode"])

p("C07", "SIMD, default and no_std builds produce identical files",
  "For every input and configuration, the build with the simd feature (AVX2 code paths), the default build and the no_std build produce byte-identical output and the same success or failure.",
  ["inputs", "configurations"], "all images, widths (every remainder modulo the vector length), colour types, sampling factors, qualities and modes",
  "Each feature set runs the same tests with a tolerance of 20 grey levels; outputs of different builds are never compared.",
  ["src/avx2.rs", "src/avx2/fdct.rs", "src/avx2/ycbcr.rs", "src/fdct.rs", IB, E],
  [("AVX2 forward DCT", "src/avx2/fdct.rs: fdct_avx2"), ("AVX2 colour conversion and its scalar tail", "src/avx2/ycbcr.rs"), ("run-time dispatch", E + ": encode, encode_image")],
  ["output bytes of the three builds"])

p("C08", "Invalid input is rejected with the right error before anything is written",
  "Encoding a slice succeeds if and only if width and height are both non-zero and the slice holds at least width x height x bytes-per-pixel bytes: too short a slice gives BadImageData with the exact actual and required lengths, a zero dimension gives ZeroImageDimensions with the given dimensions (also for custom image buffers), the text of the error names these numbers, and in both cases nothing is written and nothing panics.  Bytes beyond the required length never influence the output.",
  ["inputs"], "all dimensions 0..65535 squared x colour types x slice lengths around the required length",
  "No test calls encode with invalid input.",
  [E, "src/error.rs"],
  [("length check", E + ": encode"), ("dimension check", E + ": encode_image_internal")],
  ["Result of encode / encode_image", "bytes passed to the writer"])

p("C09", "Application segments and ICC profiles are stored verbatim, or refused",
  "A custom application segment is accepted exactly when its number is 1..15 and its data is at most 65533 bytes, and an ICC profile exactly when it is at most 16,707,345 bytes (255 chunks); otherwise the matching error is returned and the output is as if the call had not been made.  Accepted segments appear in the file once, in call order, after the standard header segments and before the frame, byte for byte; an ICC profile appears as consecutive APP2 chunks, correctly numbered from 1 with the right total, whose data concatenates to the profile.",
  ["inputs", "histories"], "all segment numbers and lengths, all ICC lengths around every chunk boundary up to the limit, all sequences of such calls up to a depth",
  "One test adds one 7-byte segment and one adds a 128 KiB profile.",
  [E, W],
  [("limits and chunking", E + ": add_app_segment, add_icc_profile"), ("segment writer", W + ": write_segment")],
  ["APPn segments parsed from the stream", "Result of add_app_segment / add_icc_profile"],
  [("app_segments", "queued segments in call order", E + ": Encoder")])

p("C10", "Headers state exactly the configured image",
  "The frame header states the image's exact width, height, 8-bit precision, component count (1 for luma, 3 for YCbCr, 4 for CMYK and YCCK) and the configured sampling factor as luma (and key) factors relative to 1x1 for the others, and is baseline or progressive as configured.  The first segment is a JFIF APP0 carrying the configured density unit and values, and CMYK and YCCK images carry exactly one Adobe marker written by the encoder, with transform 0 and 2 respectively, while other colour types carry none.  A sampling factor made from a pair of numbers has exactly these factors, and none is made from numbers that are not supported.",
  ["inputs", "configurations"], "all widths and heights 1..65535, all sampling factors, all pairs of numeric factors, colour types, modes and densities (unit x 65536 x 65536 values)",
  "Tests check dimensions and pixel format through a decoder for two sizes; density is never tested and sampling factors are not read back.",
  [E, W],
  [("component setup", E + ": init_components"), ("numeric factors", E + ": SamplingFactor::from_factors"), ("frame header", W + ": write_frame_header"), ("JFIF header", W + ": write_header"), ("Adobe marker", E + ": encode_image_internal")],
  ["SOF, APP0 and APP14 segments parsed from the stream"])

p("C11", "Quantisation tables written match the request and are the ones used",
  "Each preset table is scaled by the quality exactly as in the IJG formula (quality clamped to 1..100, scale 5000/q below 50 and 200-2q otherwise, rounded, clamped to 1..255), a custom table is written with each value clamped to 1..255 regardless of quality, and the first table is used for luma and key components and the second for the others.  The stream's tables are 8-bit, never contain zero, and are the steps actually used to quantise every coefficient position.",
  ["inputs", "configurations"], "all presets x qualities 0..255 x both tables, all 65536 custom values at each of the 64 positions, all quantiser steps 1..255 x coefficient values",
  "Tests check that quality 100 gives all ones in the default preset and one custom table of ones.",
  [Q, W, E],
  [("scaling", Q + ": get_with_quality, get_user_table"), ("table choice", E + ": init_components, encode_image_internal"), ("DQT writer", W + ": write_quantization_segment"), ("reciprocal quantiser", Q + ": compute_reciprocal, quantize")],
  ["DQT segments and coefficients parsed from the stream"])

p("C12", "Colour conversion follows the JFIF formula for every colour",
  "For all 16.7 million RGB colours the conversion to YCbCr differs from the exact JFIF (BT.601 full range) formula by at most half a level plus 0.01, maps every grey exactly to itself with neutral chroma 128, and never wraps around; the CMYK conversion applies it to the first three values and inverts the fourth.  The sample values stored in encoded files are those of this conversion for RGB-like and CMYK-as-YCCK input, the inverted values for CMYK input, and the unchanged values for luma, YCbCr and YCCK input.",
  ["inputs"], "all 2^24 RGB and all 2^32 CMYK colours, in every colour type and build",
  "About ninety sample colours are checked.",
  [IB, "src/avx2/ycbcr.rs"],
  [("fixed point conversion", IB + ": rgb_to_ycbcr, cmyk_to_ycck"), ("vector version", "src/avx2/ycbcr.rs")],
  ["rgb_to_ycbcr, cmyk_to_ycck", "DC coefficients of flat blocks in the stream"])

p("C13", "Configuration calls compose: last write wins, order is irrelevant",
  "After any sequence of configuration calls the getters report the last value set for each setting (a restart interval of 0 meaning none, enabling progressive meaning 4 scans, and without a call no density, no restarts, baseline, default tables, and 2x2 sampling below quality 90 and 1x1 from 90 on), and settings never affect one another.  The file then written depends only on those final settings and on the accepted segments in order; an invalid call (error or documented panic) changes nothing.",
  ["histories"], "all sequences of configuration calls up to a depth, from the initial and from every reachable configuration",
  "One test checks one setter and getter; the others set each option once before encoding.",
  [E],
  [("setters and getters", E + ": Encoder::set_*, add_*"), ("defaults", E + ": Encoder::new")],
  ["getters", "output bytes"],
  [("Encoder fields", "density, sampling_factor, quantization_tables, progressive_scans, restart_interval, optimize_huffman_table, app_segments", E + ": Encoder")])

p("C14", "Progressive files have exactly the requested scan script",
  "With progressive encoding and n scans requested (any n from 2 to 64), each component is coded in exactly n scans: one DC scan followed by n-1 AC scans over non-empty consecutive bands that partition coefficients 1..63 in ascending order, with all DC scans before any AC scan and no successive approximation.  Without progressive encoding there are only full-spectrum scans, and each component appears in exactly one.",
  ["inputs", "configurations"], "all n in 2..64 x colour types x sampling factors x Huffman options x restart intervals",
  "Only the default of 4 scans is tested.",
  [E],
  [("band arithmetic, duplicated in the coder and the Huffman statistics", E + ": encode_image_progressive, optimize_huffman_table")],
  ["SOS headers parsed from the stream"])

p("C15", "No memory access outside the caller's image or the encoder's buffers",
  "Encoding never reads outside the first width x height x bytes-per-pixel bytes of the caller's slice and never reads or writes outside memory the encoder allocated, never uses memory that was not written or an address that is not aligned as its type requires, and no output byte depends on uninitialised memory, in any build including the one with AVX2 code.",
  ["inputs", "configurations"], "all widths (every remainder modulo the vector length), heights, colour types, sampling factors and modes",
  "Out-of-bounds reads in the vector code are invisible to tests that use ordinary heap buffers.",
  ["src/avx2/ycbcr.rs", "src/avx2/fdct.rs", E],
  [("raw pointer reads and set_len", "src/avx2/ycbcr.rs: fill_buffers_avx2"), ("buffer sizing", E + ": init_rows, encode_blocks, encode_image_interleaved"), ("vector loads and stores", "src/avx2/fdct.rs")],
  ["page faults on guard pages around the input slice and every heap allocation", "output under different fill patterns of fresh memory"])

p("C16", "Image buffers and pixel formats carrying the same colours give the same file",
  "The output depends only on the component samples: RGB, BGR, RGBA and BGRA data with the same colours (whatever the alpha bytes), pre-converted YCbCr data, and a custom image buffer that supplies the same samples all give byte-identical files.  A custom image buffer is only ever asked for rows inside the image, and every row is asked for.",
  ["inputs", "configurations"], "all dimensions x contents x configurations x pairs of equivalent formats",
  "Formats are tested separately with tolerance 20; BGR, BGRA, YCbCr and YCCK inputs and custom image buffers are not tested at all.",
  [IB, E, "src/avx2/ycbcr.rs"],
  [("per-format image buffers", IB + ": ycbcr_image! and others"), ("row requests", E + ": encode_blocks, encode_image_interleaved")],
  ["output bytes", "fill_buffers calls"])

p("C17", "File-backed encoders write exactly the file, or report the failure",
  "An encoder created for a path, whatever its name, creates or truncates exactly that file (where the path is a link, the file it leads to) and touches no other; when encoding succeeds the file then contains exactly the bytes an in-memory encode produces, for every size relative to internal buffering.  If the file cannot be created, or if the device cannot take all of the data at whatever byte it fills up, an I/O error is returned instead of success, and what is in the file is a prefix of the complete stream; so it is when the encode is refused (the file is then empty), cut short by a panic of the image buffer, or never takes place.",
  ["fault_sequences", "inputs"], "every byte offset at which the file system refuses further data x image sizes below and above the buffer size x states and names of the path x ways the encode can end",
  "No test creates a file.",
  [E, W],
  [("BufWriter<File> construction", E + ": Encoder::new_file"), ("final flush", E + ": encode_image_internal")],
  ["file contents", "Result of new_file and encode"])

p("C18", "Encoders are isolated from one another",
  "The bytes an encoder produces are a function of its own configuration and image only: they do not depend on encoders used before it in the process (including ones that failed or panicked), on encoders running inside its image-buffer or writer callbacks, or on encoders running concurrently on other threads under any interleaving.",
  ["histories", "schedules"], "all sequences of encodes up to a depth from a menu of configurations and failure modes; all nestings and all interleavings with up to two preemptions of two encodes at callback granularity",
  "Tests run in one process but compare with tolerance 20, and never nest or deliberately interleave encoders.",
  [E, H, Q, W],
  [("all state is owned by the encoder value; statics are immutable", "src/*.rs")],
  ["output bytes"])

p("C19", "Memory use is bounded, and everything is released however an encode ends",
  "When an encoder is gone, whether its encode succeeded, was refused, failed with the writer at any byte, was unwound by a panic of the writer or the image buffer at any byte or row, or never took place, every byte it allocated and every file it opened has been released.  While encoding, a baseline image with default Huffman tables and sampling factors up to 2 takes heap memory for one row of MCUs only, whatever the height of the image and the size of the output, and any other configuration for the image once: at most 12 bytes per sample (of full-size components, padded to whole MCUs), plus four times the application segments and 128 KiB.",
  ["inputs", "configurations", "fault_sequences"], "all configurations and sizes x every byte at which the writer can fail or panic x every row at which the image buffer can panic",
  "No test measures memory or ends an encode early.",
  [E, W, H, Q],
  [("row buffers of one MCU row", E + ": encode_image_interleaved, init_rows"), ("block buffers", E + ": encode_blocks, init_block_buffers"), ("ownership of queued segments and tables", E + ": Encoder")],
  ["heap allocations and releases of the encoding thread", "open files of the process"])

p("C20", "The result does not depend on the platform: word size and byte order",
  "For the same configuration and image, the encoder compiled for any platform - 32 or 64 bits per address, little- or big-endian, with the standard library or without, x86 or not - gives the same outcome: the same file byte for byte, or the same error.  In particular sizes whose number of samples does not fit the platform's addresses are refused for lack of data and never wrap around, so that a slice that is too short is refused on every platform.",
  ["inputs", "configurations"], "all configurations and image contents x all platforms the crate compiles for; all sizes up to 65535 x 65535, whose products exceed 32 bits",
  "The tests run on the one machine that compiles them, which has 64 bits and is little-endian; what differs elsewhere cannot show up.",
  [E, W, H, Q, IB, "src/fdct.rs"],
  [("data that is needed", E + ": Encoder::encode"), ("bytes of 16-bit values", W + ": write_u16, write_segment, write_frame_header"), ("bit buffer and its bytes", W + ": write_bits, finalize_bit_buffer"), ("positions in planes and rows", E + ": init_rows, get_block, encode_blocks"), ("conversion and transform without AVX2", IB + ": rgb_to_ycbcr; src/fdct.rs: fdct")],
  ["outcome and bytes of the no_std build as a native 32-bit program", "outcome and bytes of every build interpreted for 32-bit and for big-endian targets"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
