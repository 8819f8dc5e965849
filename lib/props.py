"""What each check runs.  parts: drivers (built with the library from /repo) or python workloads."""


def drv(driver, variant="asan", quick=0, thorough=0, **kw):
    d = {"driver": driver, "variant": variant, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d


def pyprog(script, quick, thorough, prepare, **kw):
    d = {"prepare": prepare, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d


import pylib


def py(script, variant="gasan", tools=()):
    return lambda B: pylib.command(B, script, variant, tools)


ASAN = "ASan+UBSan with live assertions"
PROPS = {}


def P(pid, parts, rule, technique, note, **kw):
    PROPS[pid] = dict(parts=parts, rule=rule, technique=technique, level_note=note, **kw)


IO_NOTE = "Exploration: holds for every generated data set of the run (seeded, case-bounded); nothing is claimed beyond the generated space."
P("P01", [drv("io.cpp", quick=80000, thorough=800000)],
  "distinct (extension, data set) pairs by hash of schema, strings and values; a pair counts once it has been written, read back and compared",
  "runtime monitoring: write/read round trips of generated data sets under %s, compared value by value (bitwise) with a reference table" % ASAN, IO_NOTE)
P("P02", [drv("io.cpp", quick=180000, thorough=1440000)],
  "distinct (extension, data set) pairs by hash of schema, strings and values; a pair counts once it has been written, read back and compared",
  "runtime monitoring: write/read round trips of generated data sets under %s, compared bitwise with a reference table" % ASAN, IO_NOTE)
P("P03", [drv("io.cpp", quick=180000, thorough=1440000)],
  "distinct (extension, data set) pairs by hash; a pair counts once written, read back and compared",
  "runtime monitoring: write/read round trips of generated data sets under %s, compared with a reference table at six significant digits" % ASAN, IO_NOTE)
P("P04", [drv("io.cpp", quick=250000, thorough=2000000)],
  "distinct (extension, described data set) pairs by hash of what the independent encoder put into the file",
  "runtime monitoring: files from an independent encoder read under %s and compared with the encoder's model" % ASAN, IO_NOTE)
P("P05", [drv("io.cpp", quick=280000, thorough=2240000)],
  "distinct (extension, data set) pairs whose written bytes were decoded",
  "runtime monitoring: strict independent decoders over the bytes written under %s" % ASAN, IO_NOTE)
P("P06", [drv("io.cpp", quick=40000, thorough=600000)],
  "distinct data sets written plain/compressed, and distinct foreign gzip files read",
  "runtime monitoring: strict gzip member parser over written bytes, zlib-made foreign gzip files as input, under %s" % ASAN, IO_NOTE)
P("P07", [drv("io.cpp", quick=200000, thorough=1600000)],
  "distinct (extension, data set, compression) triples for which headers and full read were compared",
  "runtime monitoring: schema reported by readHeaders compared with that of read over generated files, under %s" % ASAN, IO_NOTE)
P("P27", [drv("io.cpp", "plain", quick=30000, thorough=300000), drv("io.cpp", "asan", quick=38000, thorough=304000)],
  "distinct (extension, data set) pairs written twice and snapshotted before and after",
  "runtime monitoring: snapshots before/after every reading operation; byte equality of repeated writes with heap and stack filled differently (M_PERTURB)", IO_NOTE)
P("P28", [drv("io.cpp", quick=80000, thorough=800000)],
  "distinct (extension, data set, ambient state) triples compared with the result under the default state",
  "runtime monitoring: results under hostile locales, stream flags and working directories compared with the usual ones; monitor on locale and stream state around every call", IO_NOTE)

C_NOTE = "Exploration: holds for every generated history of the run; nothing is claimed beyond the generated space."
P("P13", [drv("container.cpp", quick=100000, thorough=1200000)], "distinct operation histories (hash over operations, sizes and schema)",
  "runtime monitoring: online comparison with a reference table after every operation of generated histories, under %s" % ASAN, C_NOTE)
P("P14", [drv("container.cpp", quick=28000, thorough=400000)], "distinct operation histories driven through both containers",
  "runtime monitoring: both containers driven by one history and compared with each other and a reference table, under %s" % ASAN, C_NOTE)
P("P15", [drv("container.cpp", quick=150000, thorough=1200000)], "distinct (data set, container) pairs walked with iterators and accessors",
  "runtime monitoring: online checker of the iteration sequence and accessor values against indexed access, under %s" % ASAN, C_NOTE)
P("P16", [drv("container.cpp", quick=360000, thorough=2880000)], "distinct (data set, container) pairs gathered from",
  "runtime monitoring: gathered values against a reference table with guard zones and exact-size heap buffers, under %s" % ASAN, C_NOTE)
P("P17", [drv("container.cpp", quick=320000, thorough=2560000)], "distinct histories of string-table operations",
  "runtime monitoring: online comparison with a reference string table after every operation, under %s" % ASAN, C_NOTE)
P("P18", [drv("kd.cpp", quick=80000, thorough=640000)], "distinct (point cloud, container) pairs queried with boxes",
  "runtime monitoring: results of box queries judged by brute force, under %s" % ASAN, C_NOTE)
P("P19", [drv("kd.cpp", quick=125000, thorough=1000000)], "distinct (point cloud, container) pairs queried for nearest neighbours",
  "runtime monitoring: results of nearest-neighbour queries judged by brute force in double precision, exact-size output buffers, under %s" % ASAN, C_NOTE)
P("P20", [drv("sets.cpp", quick=70000, thorough=560000)], "distinct (data set, container, rename map size) triples cloned",
  "runtime monitoring: snapshots of clone and source compared with a reference and again after modifying or releasing either, under %s" % ASAN, C_NOTE)
P("P21", [drv("sets.cpp", quick=64000, thorough=800000)], "distinct (base, delta, identifier mode) triples merged",
  "runtime monitoring: merged set judged by a reference merge over strings and bit patterns, under %s" % ASAN, C_NOTE, require={"keyed": 200, "matched": 200, "appended": 200})
P("P22", [drv("sets.cpp", quick=120000, thorough=1200000)], "distinct (data set, parameters) pairs clustered",
  "runtime monitoring: trace specification over the clustered set (originals, numbering, segments, common interpolation fraction, connection bound), under %s" % ASAN, C_NOTE, require={"generated_points": 1000})

HOSTILE_ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=256:detect_stack_use_after_return=1:malloc_fill_byte=190:max_malloc_fill_size=4096:free_fill_byte=93:max_free_fill_size=512:handle_abort=1:quarantine_size_mb=32:hard_rss_limit_mb=3500"}
P("P08", [drv("malformed.cpp", quick=20000, thorough=300000)], "distinct (extension, bytes) pairs that were read, fully or headers only",
  "runtime monitoring: hostile files (truncations, corrupted fields, splices, damaged gzip, noise) through every reader under %s and a watchdog" % ASAN,
  "Exploration: every generated file of the run; allocations above 256 MB are refused and count as reported memory exhaustion.", env=HOSTILE_ENV)
P("P30", [drv("malformed.cpp", quick=9000, thorough=100000), pyprog("leaks.py", 900, 10000, py("leaks.py"))], "distinct (extension, bytes, call) triples and data sets around whose use the balance was taken",
  "runtime monitoring: allocation hooks and descriptor counts around every call, on well-formed, truncated and malformed input and failing writes, under %s" % ASAN,
  "Exploration: every call of the run; an imbalance counts when it repeats three times (lazily created statics do not).", env=HOSTILE_ENV)

P("P09", [drv("faults.cpp", quick=48000, thorough=384000)], "distinct (path, call, fault, verbosity, compression) tuples",
  "runtime monitoring: injected open and write failures (missing, directory, no descriptors, full device, size limit, unknown format) with all output streams captured, under %s" % ASAN,
  C_NOTE, require={"recovered": 200, "full_device": 200})
P("P10", [drv("faults.cpp", quick=12000, thorough=240000)], "distinct histories of cached reads, releases and file changes",
  "runtime monitoring: online checker of cache histories (identity, content, lifetime through the sanitizer's shadow memory), under %s" % ASAN,
  C_NOTE, require={"hits": 1000, "last_releases": 1000, "queries": 500})

TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:detect_deadlocks=1:history_size=4"}
T_NOTE = "Exploration: holds for every schedule that occurred; schedules are diversified by random delays at lock operations and allocations, not enumerated."
PERTURB = ("drivers/common/perturb.h",)
P("P11", [drv("threads.cpp", "tsan", quick=600, thorough=12000, include=PERTURB, workers=3, chunks=6), drv("threads.cpp", "asan", quick=500, thorough=10000, include=PERTURB, workers=3, chunks=6)],
  "distinct interleavings: hash of the order in which threads passed lock operations and call boundaries",
  "runtime monitoring: ThreadSanitizer and AddressSanitizer builds under disturbed schedules, offline checker over the recorded cache history (identity while held, content, freshness, release)", T_NOTE,
  env=TSAN_ENV, require={"shared_holds": 500, "fresh_loads_checked": 100})
P("P12", [drv("threads.cpp", "tsan", quick=3000, thorough=24000, include=PERTURB, workers=3, chunks=40)],
  "distinct interleavings: hash of the order in which threads passed lock operations and completed operations",
  "runtime monitoring: ThreadSanitizer build under disturbed schedules; every thread's results compared with those of the same script run alone", T_NOTE,
  env=TSAN_ENV, require={"first_use_in_process": 30})

P("P29", [drv("zip.cpp", quick=42000, thorough=336000)], "distinct archives (hash over names and contents)",
  "runtime monitoring: archives written by the library through a strict parser, Python's zipfile and the library's reader; foreign archives through the library's reader; under %s" % ASAN,
  C_NOTE, require={"python_reads": 20, "python_writes": 20, "foreign_archives": 300})

P("P24", [pyprog("misuse.py", 50000, 300000, py("misuse.py"))], "distinct (data set, misuse sequence) pairs after which the set was compared with its reference",
  "runtime monitoring: misuse catalogue against the SWIG module built with ASan+UBSan (libasan preloaded, Python allocations instrumented); refusal and unchanged contents checked after every call",
  "Exploration: every misuse generated in the run.", env=HOSTILE_ENV, require={"refusals": 3000})

P("P23", [pyprog("parity.py", 7000, 120000, py("parity.py", tools=("dump",)))], "distinct operation histories and data sets (hash over schema, strings, values)",
  "runtime monitoring: histories through the SWIG module (built with ASan+UBSan) against a reference table, and every file, query, clone, merge and clustering against a plain C++ client of the library, value by value and byte by byte",
  C_NOTE, require={"queries": 1000, "clones": 1000, "merges": 1000, "clusterings": 100, "histories": 1000, "big_sets": 20})
P("P25", [pyprog("jsontool.py", 16000, 160000, py("jsontool.py"))], "distinct data sets converted (hash over schema, strings, values)",
  "runtime monitoring: partjson conversions, direct, through text and through its command line, compared with a reference table; the module runs under ASan+UBSan",
  C_NOTE, require={"round_trips": 2000, "tool_round_trips": 300})
P("P26", [pyprog("tools.py", 7500, 80000, py("tools.py", tools=("partconvert", "partinfo", "partattr")))], "distinct (extension, data set) pairs given to the tools",
  "runtime monitoring: the tools, built with ASan+UBSan, run on generated, damaged and missing files; output parsed and compared with the data written into the file, converted files byte for byte with the library's",
  C_NOTE, env=HOSTILE_ENV, require={"printed_values": 5000, "conversions": 300, "usage": 200})

P("P31", [drv("writers.cpp", quick=240000, thorough=1920000)], "distinct (extension, container, data set) triples given to a writer",
  "runtime monitoring: arbitrary data sets, also ones the format cannot hold, through every writer under %s; read back and compared attribute by attribute, diagnostics required for what is refused" % ASAN,
  C_NOTE, require={"accepted": 1000, "refused": 100, "attributes_compared": 5000})

P("P32", [drv("writers.cpp", quick=300000, thorough=2400000)], "distinct (container, data set) pairs printed",
  "runtime monitoring: the listing printed for generated data sets is parsed and every count, name, type and value compared with the reference table, under %s" % ASAN,
  C_NOTE, require={"values_compared": 100000, "interleaved": 1000})

P("P33", [pyprog("editor.py", 6000, 60000, py("editor.py"))], "distinct (final data set, history of operations) pairs of an editor",
  "runtime monitoring: histories of edits through partedit's model and its widgets (under a window system that only remembers) against a reference table; saved files byte for byte, deltas particle by particle and merged into their baseline; the module runs under ASan+UBSan",
  C_NOTE, require={"states": 10000, "typed": 500, "dialogs": 300, "removals": 500, "saves": 300, "deltas": 1000, "delta_merges": 50})
P("P34", [pyprog("editor.py", 60000, 600000, py("editor.py"))], "distinct (data set, mode) pairs shown",
  "runtime monitoring: every cell, heading and filter decision of partinspect's models (under a window system that only remembers) compared with a reference table; the module runs under ASan+UBSan",
  C_NOTE, require={"cells": 10000, "attribute_rows": 1000, "filters": 500})
