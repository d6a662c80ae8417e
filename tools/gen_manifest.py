#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (levels and techniques per property)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "exploration"; MC = "model_checking"; FE = "fault_enumeration"
T = {
 "C01": (MC, "bounded explicit-state exploration: every configuration x MCU-content sequence on the real encoder, each stream replayed on a T.81 decoder automaton",
   "Every case of the listed finite spaces (all colour types, factors, modes, restart intervals, sizes, MCU content sequences up to the depth, every AC symbol at every bit phase) is run on the real code in all three builds. Trusts the independent T.81 parser in mc/src/jpeg.rs. Contents outside the alphabets are not covered."),
 "C02": (EX, "exhaustive bounded enumeration with a reference DCT and quantiser model",
   "Every coefficient of every visible block of every enumerated image is compared with a double-precision DCT of the source block; the bounds on arithmetic error are |F|/8192 + q/16384 steps + 0.25 grey levels.  Images of more than 2^31 pixels and 2^32 bytes are included (strips judged one by one)."),
 "C03": (EX, "exhaustive differential exploration of the mode lattice",
   "For each enumerated image the coefficients of all modes are compared with those of the plain baseline stream; exhaustive over scans 2..64 and the listed restart intervals."),
 "C04": (MC, "bounded explicit-state exploration of all restart intervals and geometries, each stream replayed on a restart-marker automaton",
   "Marker positions, numbers, byte alignment and prediction resets are checked for all restart intervals up to beyond the MCU count of each enumerated geometry."),
 "C05": (EX, "exhaustive bounded enumeration of symbol histograms and modes with an optimal-code oracle",
   "All histograms reachable from the enumerated block sequences, the skewed families (Fibonacci-like, ties) up to trees deeper than 32, in every mode; length-limited tables are checked for validity and against the default tables, not for optimality.  The image with more than 2^32 occurrences of a symbol is encoded in the thorough tier only, if 21 GB are available."),
 "C06": (FE, "exhaustive fault injection: every fault kind at every byte offset of the output",
   "Complete for the listed histories: errors (sticky, transient), zero writes, interruptions, short writes, flush failures and pairs at every offset, in all builds and behind buffered writers; for long streams and for the configurations within the deviation bound, one failure at each of the listed offsets."),
 "C07": (EX, "exhaustive differential exploration of the three builds",
   "Default, simd (AVX2) and no_std builds of the same sources are linked into one process and compared byte for byte on every enumerated case, including all two-level separable blocks, all widths up to the bound and all colours on a lattice (thorough: all 2^24)."),
 "C08": (EX, "exhaustive enumeration of (width, height, slice length) triples against the length rule",
   "All lengths around the required one for all colour types and a grid of sizes up to 65535, all builds, with a recording writer."),
 "C09": (EX, "exhaustive enumeration of segment numbers, lengths and call sequences against a list model",
   "All segment numbers x critical lengths, every length 0..65540, all call sequences up to depth 4 over the alphabet, contents that look like known segments, several profiles, ICC sizes around every chunk boundary that matters."),
 "C10": (EX, "exhaustive enumeration of header settings against the header model",
   "Every width 1..65535, a dense set of heights, every density value, all colour types, factors and modes."),
 "C11": (EX, "exhaustive enumeration of tables x qualities x values against the IJG formula and the quantiser model",
   "All 9x9 presets at all 256 qualities, every 16-bit custom value at every position, every step 1..255 at every DC level."),
 "C12": (EX, "exhaustive enumeration of all 2^24 colours against the exact JFIF formula",
   "Complete for the conversion function; the stored samples are compared for all 2^24 colours in the listed formats and builds."),
 "C13": (MC, "explicit-state exploration: all sequences of configuration calls replayed on the real encoder against a settings model",
   "Every sequence over a 29-call alphabet up to depth 4 (thorough 5) and every sequence of three calls over a 118-call alphabet; after each call all getters are compared with the model, at the end the file with that of a canonical encoder of the same model state."),
 "C14": (MC, "bounded explicit-state exploration of all scan counts, each stream replayed on a scan-script automaton",
   "All scan counts 2..64 x colour types x factors x sizes x restart intervals x table modes; the script is complete for each."),
 "C15": (EX, "exhaustive bounded enumeration under memory monitors (guard-page allocator, poisoned fresh memory, AddressSanitizer, interpretation by Miri)",
   "Every enumerated case runs with every heap block and the caller's slice adjoining inaccessible pages in three placements, and again with stack and heap instrumentation; a small sample of all settings is interpreted by Miri in all builds, with AVX2."),
 "C16": (EX, "exhaustive differential exploration of pixel formats and entry points",
   "All formats and the custom image buffer are compared for every enumerated geometry and mode; rows asked for are recorded and compared with the set 0..height."),
 "C17": (FE, "exhaustive fault injection: the file system fills up at every byte; every stream length across buffer boundaries",
   "RLIMIT_FSIZE at every offset of the listed streams, 25 initial states of the path, odd path names, refused, unwound and unused encoders, every stream length up to the bound."),
 "C18": (MC, "stateless model checking: all job sequences, all nestings at callback points, all two-thread schedules with at most two preemptions at callback points and at accesses to static memory",
   "The reference of each job is its outcome in a process of its own. Thread switches happen at the encoder's callbacks and, in the fine scenarios, around every access to the executable's writable static memory."),
 "C19": (FE, "exhaustive bounded enumeration under an allocation monitor, with the encode ended at every byte and row",
   "Every enumerated configuration is encoded once under a counting allocator, and the listed histories are ended by a writer error, a writer panic or an image-buffer panic at every listed byte and row."),
 "C20": (EX, "exhaustive differential exploration of the 64-bit build against a native 32-bit build, and against every build interpreted for 32-bit and big-endian machines",
   "The no_std build runs natively as a 32-bit program on all cases of the spaces; Miri interprets the std, AVX2 and no_std builds for i686, powerpc and s390x on the small sample of cases that its speed allows within the tier's time (parts not reached are listed in the evidence)."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    lv, tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": lv, "level_note": note})
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": []}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks))
