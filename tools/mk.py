#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, level="exploration", state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    if hook is not None:
        a["hook_needed"] = hook
    P.append(({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
              technique, note, level))


MON = ("differential runtime monitoring: the real binaries (debug assertions and overflow checks on) run under generated workloads, and an online "
       "reference-model oracle judges every observable byte, exit status and file")
NOTE = ("no violation on the executions counted in the evidence; trusts the reference model ndv/model.py (independent, written from the README) and what "
        "its generators reach: streams of 0..~9 MiB, portable and AVX2 builds, 145-byte, 4096-byte and production chunk sizes, files and split pipes")
UNIT = ("The unit tests feed one node at a time with a handful of fixed vectors from an in-memory mock; they never run the program on real files and pipes, "
        "and cannot cover ")

prop("C01", "Every slice is dumped as one exact, complete text record",
     "For every slice of the stream, in the order of the slices, the output holds exactly one record made of the slice's offset, its length, its bytes and its "
     "printable rendering, in the documented layout of the requested format (hex, decimal header, headerless hex, raw binary), padded to the column width of the "
     "slicer. This holds for every offset, length, byte value and column width.",
     ["inputs", "configurations"], "all byte strings, slice lengths 0.. (columns 1..70000 and beyond), offsets up to 2^40, out-formats x, d, nnx, b, portable and vectorized routines",
     UNIT + "every (length modulo 16 x column width x offset digits x alignment in the buffer) combination.",
     ["src/text/formatter/mod.rs", "src/text/formatter/hex.rs", "src/text/mod.rs", "src/drain/scatter.rs"],
     [("line formatters", "src/text/formatter/mod.rs format_line_hhh / format_line_ddh"), ("hex, decimal and mosaic emitters (naive, AVX2, NEON)", "src/text/formatter/hex.rs"),
      ("column width", "src/pipeline.rs cols, src/segment/stride.rs columns()")], MON, NOTE)

prop("C02", "Text records decode to exactly what they say; malformed text is refused",
     "A text input in the `offset length | array | comment` form yields the stream in which every array lies at its offset with gaps filled by the filler byte (or the bare "
     "concatenation of the arrays in headerless format), whatever the spelling (digit case, leading zeros, blanks, optional fields, missing final newline, line length). "
     "A malformed, overlapping or unsorted record makes nd fail with a non-zero status; it is never skipped or half-read.",
     ["inputs", "configurations"], "all record lists and spellings the README allows, single-character corruptions of them, lines and files longer than the read buffer",
     UNIT + "the spellings and corruptions at every position relative to the vector width and to the chunk boundaries.",
     ["src/text/parser/mod.rs", "src/text/parser/naive.rs", "src/text/parser/x86_64.rs", "src/byte/text.rs"],
     [("record parser", "src/text/parser/mod.rs read_head / read_body"), ("array decoders", "src/text/parser/naive.rs, x86_64.rs parse_hex_body"),
      ("gap filling and order check", "src/byte/text.rs TextStream")], MON, NOTE)

prop("C03", "A dump is a faithful image: reading it back restores the stream",
     "A hex dump that covers the stream, fed back as text input or applied as a patch to the stream or to any stream of the same length, restores the dumped bytes exactly; dumps of "
     "non-overlapping parts restore those parts and leave the rest alone. This holds whatever slicer produced the dump and whichever build wrote or read it.",
     ["inputs", "configurations"], "random streams x slicers x (portable writer, vectorized reader and vice versa) x read-back route",
     UNIT + "the composition of formatter and parser: no test reads back what nd wrote.",
     ["src/text/formatter/mod.rs", "src/text/parser/mod.rs", "src/byte/text.rs", "src/byte/patch.rs"],
     [("record layout shared by writer and reader", "src/text"), ("patch application", "src/byte/patch.rs")],
     "metamorphic runtime monitoring: dump on one build, read back on another, compare with the original bytes", NOTE)

prop("C04", "Inputs are combined exactly as --cat N and --zip N say",
     "With --cat N the stream is the concatenation of all inputs, each padded with the filler byte to a multiple of N; with --zip N it is the round-robin interleaving of N-byte words up to "
     "the end of the shortest input, whose last partial word is padded. No byte of an input is lost, duplicated or reordered, for any number, lengths and formats of inputs.",
     ["inputs", "configurations"], "1..5 inputs of any lengths (also empty), N 1..300 and large, any filler, binary and text inputs, files and pipes",
     UNIT + "inputs of different lengths crossing chunk boundaries at different times.",
     ["src/byte/cat.rs", "src/byte/zip.rs", "src/byte/raw.rs", "src/byte/text.rs"],
     [("concatenation with carried-over remainder", "src/byte/cat.rs CatStream"), ("word gather", "src/byte/zip.rs ZipStream"), ("alignment padding", "src/byte/raw.rs")], MON, NOTE)

prop("C05", "--cut keeps exactly the requested bytes and --pad adds exactly the fillers",
     "--cut yields the bytes of the union of its ranges in stream order, where ranges may be anchored at the start or the end of a stream of unknown length and may be empty, overlapping or out of "
     "bounds; --pad N,M adds exactly N and M filler bytes around the result. Everything else stays byte-identical.",
     ["inputs", "configurations"], "all lists of ranges with s/e/absent anchors, all stream lengths around the chunk and margin sizes, pads of 0..several chunks",
     UNIT + "combinations of several start- and end-anchored ranges over streams whose end is discovered late.",
     ["src/byte/cut.rs", "src/byte/clip.rs", "src/mapper.rs", "src/byte/zero.rs"],
     [("range evaluation over a growing stream", "src/mapper.rs RangeMapper"), ("cutter with tail lookahead", "src/byte/cut.rs"), ("clip and pad", "src/byte/clip.rs")], MON, NOTE)

prop("C06", "--patch replaces exactly the targeted spans",
     "Applying a patch file yields the stream with the span of every record replaced by its array (insertion, deletion, shrinking and growing included) and every other byte untouched. "
     "Overlapping, unsorted or malformed records make nd fail with a non-zero status.",
     ["inputs", "configurations"], "all sorted record lists over the stream incl. zero-length, at both ends, dense and sparse, records longer than a chunk",
     UNIT + "records that straddle chunk boundaries, or insertions at the end of the stream.",
     ["src/byte/patch.rs", "src/text/parser/mod.rs"],
     [("patch feeder and splice", "src/byte/patch.rs PatchFeeder / PatchStream")], MON, NOTE)

prop("C07", "--width covers the stream in exact strides mapped to S..E",
     "--width N,S..E yields for every N-byte stride of the stream (the last one possibly mapped past the end) the slice obtained by mapping the stride to S..E and clipping it to the stream, without empty slices, "
     "in order and exactly once. A mapping that is always empty is refused.",
     ["inputs", "configurations"], "all N, all S..E anchors and signs (slices longer, shorter, before or after the stride), all stream lengths",
     UNIT + "mapped ranges larger than the buffered chunk, which the arithmetic of phases and lookahead must carry over.",
     ["src/segment/stride.rs", "src/mapper.rs"],
     [("phase and pitch arithmetic", "src/segment/stride.rs ConstSlicer"), ("mapper anchors", "src/mapper.rs")], MON, NOTE)

prop("C08", "--find reports every non-overlapping match exactly once",
     "--find ARRAY yields exactly the leftmost non-overlapping occurrences of the byte string in the whole stream, in order, including those that straddle internal chunk boundaries. No match is missed, invented or reported twice.",
     ["inputs", "schedules"], "all patterns (also self-overlapping) and streams, all ways the stream is split into reads",
     UNIT + "matches that straddle chunk boundaries in self-overlapping (periodic) data.",
     ["src/segment/exact.rs"], [("search with carried-over tail", "src/segment/exact.rs ExactMatchSlicer")], MON, NOTE)

prop("C09", "--walk follows the lengths found in the stream",
     "--walk cuts the stream into consecutive chunks whose lengths are its expressions evaluated at each position over little-endian signed array views of what follows; the chunks tile the stream, the last is clipped at the end. "
     "A non-positive length or a failing expression makes nd fail with a non-zero status.",
     ["inputs", "configurations"], "all expressions over b, h, i, l with constant and computed indices, chunks shorter and longer than the buffer",
     UNIT + "elements beyond the buffered chunk, or chunks longer than it.",
     ["src/segment/walk.rs", "src/eval.rs"], [("lookahead sizing and element fetch", "src/segment/walk.rs")], MON, NOTE)

prop("C10", "--slice and --guide pick exactly the named ranges",
     "--slice yields every distinct range of its list, evaluated against the whole stream and clipped to it, in sorted order; --guide yields one slice per record of the guide file, clipped at the end of the stream. "
     "An unsorted or malformed guide is refused.",
     ["inputs", "configurations"], "all range lists (start- and end-anchored, overlapping, nested, empty) and all sorted guides",
     UNIT + "ranges that span many chunks or are resolved only at the end of the stream.",
     ["src/segment/range.rs", "src/segment/guided.rs", "src/mapper.rs"], [("range slicer", "src/segment/range.rs"), ("guide reader", "src/segment/guided.rs")], MON, NOTE)

prop("C11", "--regex finds every match within every slice",
     "--regex yields, for each slice, exactly the leftmost-first non-overlapping matches a regular-expression engine finds when given that slice alone, as absolute positions in sorted order. Slices longer than the read buffer behave the same.",
     ["inputs", "configurations"], "a family of byte regexes (literals, classes, anchors, alternations, repetitions, empty matches) x slicers x streams",
     UNIT + "matches at slice boundaries when slices overlap, or are longer than a chunk.",
     ["src/segment/regex.rs"], [("per-slice matching and sorting", "src/segment/regex.rs RegexSlicer")], MON, NOTE + "; Python's re for the regex family used")

prop("C12", "--invert, --extend and --merge follow interval algebra",
     "--invert yields the gaps between the slices, --extend the mapped slices, each for every S..E of its list, clipped to the stream and without empty ones, and --merge joins slices whose distance is at most N; all results are sorted. "
     "They compose in the documented order with every slicer.",
     ["inputs", "configurations"], "all slice sequences the slicers produce (overlapping, nested, duplicate) x all mapper lists x all merge distances",
     UNIT + "mappers that reach back before already emitted data or ahead of the buffered chunk.",
     ["src/segment/bridge.rs", "src/segment/extend.rs", "src/segment/merge.rs", "src/mapper.rs"],
     [("gap building", "src/segment/bridge.rs"), ("mapping and reordering", "src/segment/extend.rs"), ("accumulation", "src/segment/merge.rs")], MON, NOTE)

prop("C13", "--lines keeps exactly the selected slices",
     "--lines S..E[,...] keeps exactly the slices whose index lies in the union of the ranges, anchored at the first or the last slice, in order and each once; the kept slices are the same as without the option.",
     ["inputs", "configurations"], "all range lists over 0..thousands of slices from every slicer and manipulator",
     UNIT + "end-anchored line ranges across chunks, duplicates and empty inputs.",
     ["src/segment/filter.rs", "src/mapper.rs"], [("index window with tail lookahead", "src/segment/filter.rs")], MON, NOTE)

prop("C14", "The result does not depend on how the data arrives or is buffered",
     "For every command line and data, nd gives the same bytes and the same success or failure whether the input is a file or a pipe, however reads and writes are split, and whatever its internal buffer size is.",
     ["schedules", "inputs", "configurations"], "all splits of the input into reads (down to one byte), all short writes, buffer sizes 145, 4096 and 2 MiB, over all stages",
     UNIT + "program-level delivery: the mock source splits data in a few ways into single nodes, never through the assembled pipeline.",
     ["src/byte/raw.rs", "src/streambuf.rs", "src/byte", "src/segment", "src/params.rs"],
     [("request/consume protocol", "src/byte/mod.rs, src/segment/mod.rs"), ("chunk buffer", "src/streambuf.rs")],
     "metamorphic runtime monitoring: the same case on other block sizes, from randomly split pipes, with an LD_PRELOAD interposer that shortens every read and write; the monitor requires equal observables", NOTE, hook="chunk size from the environment under cfg(nd_verif), src/params.rs")

prop("C15", "Portable and vectorized builds are indistinguishable",
     "The portable build and the builds with vector instructions, optimized or not, accept the same inputs and produce the same bytes for every command line, including malformed text.",
     ["inputs", "configurations"], "all stage combinations; all text inputs incl. corrupted ones; debug and release, baseline and AVX2",
     "The build under test is compiled for one CPU at a time; no test compares two builds.",
     ["src/text/formatter/hex.rs", "src/text/parser/x86_64.rs", "src/text/parser/naive.rs", "src/byte/zip.rs"],
     [("per-ISA routines behind cfg", "src/text/formatter/hex.rs, src/text/parser/mod.rs, src/byte/zip.rs")],
     "differential runtime monitoring of two builds of the same source (baseline and AVX2, debug and release) on the same data", "no disagreement on the pairs counted in the evidence; the NEON routines are not built here (x86-64 sandbox)")

prop("C16", "Expressions have C semantics on 64-bit integers",
     "Every integer expression accepted anywhere (numeric options, ranges, walk lengths, file name templates) evaluates like the C expression over wrapping 64-bit signed integers: literal bases and unit suffixes, precedence and associativity, unary operators, and variables. "
     "A division by zero is reported as an error.",
     ["inputs", "programs"], "all expressions over the documented operators and literals, nested to depth 5, with constants and n, l, b[], h[], i[], l[]",
     "The tests pin some dozens of simplifications of the symbolic rewriter; a rewriting rule must be sound for every expression and value.",
     ["src/eval.rs", "src/mapper.rs", "src/template.rs", "src/segment/walk.rs"],
     [("tokenizer and constants", "src/eval.rs tokenize"), ("canonicalizer", "src/eval.rs canonize_rpn"), ("evaluator", "src/eval.rs apply_op / eval_rpn")],
     "differential runtime monitoring against an independent C-semantics evaluator, observed through rendered file names, option effects and walks",
     "no violation but the listed finding on the expressions counted in the evidence; shift counts outside 0..63 and the operators !, ==, !=, &&, ||, ?: are not driven")

prop("C17", "--output routes every slice to exactly one file, in order",
     "--output TEMPLATE writes every slice, in order and exactly once, to the file its rendered template names (stdout for an empty name or `-`); files written are first emptied, nothing else is touched. This holds for any number of distinct and revisited files.",
     ["inputs", "configurations", "histories"], "all templates over n and l with formats, slice sequences up to thousands of files, directories with leftovers",
     "The one scatter test writes two fixed files.",
     ["src/drain/scatter.rs", "src/template.rs"], [("truncate-then-append routing", "src/drain/scatter.rs ScatterDrain"), ("template rendering", "src/template.rs")],
     "runtime monitoring with an exactly-once conservation oracle over the whole output directory and stdout", NOTE)

prop("C18", "--patch-back feeds the slices and splices exactly what CMD answers",
     "With --patch-back CMD, the command receives exactly the formatted slices, and the output is exactly the original stream with the command's answer applied as a patch, whatever part of the slices the command reads, answers, drops or delays, and for every interleaving of nd's threads with it. "
     "An invalid answer makes nd fail.",
     ["schedules", "inputs", "histories"], "filters that edit, drop, duplicate, reorder, delay or ignore records x streams beyond the in-memory cache x injected delays and short transfers in nd's threads",
     "The single test runs one identity command; neither the schedule nor the answer varies.",
     ["src/drain/patch.rs", "src/byte/tee.rs", "src/byte/patch.rs", "src/pipeline.rs"],
     [("feeder thread", "src/drain/patch.rs PatchDrain"), ("shared spooled cache", "src/byte/tee.rs TeeStream / TeeStreamReader"), ("splice", "src/byte/patch.rs")],
     "runtime monitoring of recorded sessions: an offline checker relates what CMD was fed, what it said and what nd output, under schedule perturbation by an LD_PRELOAD interposer",
     "no violation on the sessions and perturbed schedules counted in the evidence; trusts the recorders (tee) around the command",
     state=[("shared cache", "spooled copy of the stream between the feeder and the splicer", "src/byte/tee.rs TempFile")])

prop("C19", "--inplace is all-or-nothing for every file",
     "At every instant, and after a crash, a kill, an I/O fault or a rejected input at any point, each file given to --inplace holds either its complete old content or its complete new content, with its permissions; files are replaced in sorted order and no other existing file is touched. "
     "After an error no temporary file is left.",
     ["crash_points", "fault_sequences", "schedules"], "a kill before and after every state-changing system call, every failing open/read/write/rename/fchmod, random signals, concurrent readers, rejected data at any depth",
     "No test runs --inplace on a file, much less kills it.",
     ["src/main.rs"], [("temporary file and rename", "src/main.rs main_impl / create_tmpfile")],
     "fault injection with an LD_PRELOAD interposer enumerating every state-changing call, and a state monitor on the directory; concurrent reader as online monitor",
     "every kill point and every single fault of the calls logged in the sampled invocations; process crashes, not power loss (nd does not fsync)", level="fault_enumeration")

prop("C20", "An I/O failure is never mistaken for success",
     "If any read, write, open, rename or seek fails, nd either reports failure with a non-zero status, having emitted to stdout only a prefix of the right output (with --patch-back, the bytes which CMD didn't get to patch may come out as they were before the failure is reported), or still delivers the complete right result; it never crashes, hangs or claims success for truncated or altered data. "
     "A reader that closes the output pipe ends nd quietly.",
     ["fault_sequences", "inputs", "configurations"], "every single failing call (EIO, ENOSPC, EMFILE, EACCES, EINTR...) of invocations over all stages and drains, full devices, directories as inputs, closed pipes",
     "The mocks never fail.",
     ["src/byte/raw.rs", "src/byte/tee.rs", "src/drain/scatter.rs", "src/drain/patch.rs", "src/main.rs"], [("error propagation", "src/main.rs consume_stream, src/drain")],
     "fault injection with an LD_PRELOAD interposer enumerating every call of every kind, judged against the fault-free run",
     "every single-fault position of the sampled invocations; faults are injected at libc calls", level="fault_enumeration")

prop("C21", "No input or command line makes nd panic, crash or hang",
     "For every argument vector and every input bytes, nd terminates when its input ends, without a panic, an abort or a signal: it either succeeds or prints an error and exits with a non-zero status.",
     ["inputs", "configurations"], "syntactically valid, mutated and garbage options, expressions, templates, formats, records, patches and guides, with huge numbers",
     "The tests use valid vectors; each parser is exercised with few invalid ones.",
     ["src/main.rs", "src/pipeline.rs", "src/eval.rs", "src/mapper.rs", "src/template.rs", "src/text/parser/mod.rs"], [("validation and error returns", "src/pipeline.rs, src/eval.rs, src/mapper.rs")],
     "runtime monitoring of debug builds (assertions, overflow and bounds checks, UB checks of the standard library) under generated and mutated argument vectors and inputs; crash, panic and hang monitors",
     "no crash on the executions counted; runs as an unprivileged user with file names and commands restricted to a scratch directory")

prop("C22", "Memory safety: no out-of-bounds access and no undefined behaviour",
     "For every input and command line, nd never reads or writes outside its buffers, never uses freed or uninitialized memory, and never violates a precondition of the unsafe code it uses.",
     ["inputs", "configurations", "schedules"], "all stage combinations on AddressSanitizer and MemorySanitizer builds (baseline and AVX2), boundary-biased record sizes, malformed text; small runs under an undefined-behaviour interpreter",
     "The unit tests run without sanitizers; an over-read inside the allocation passes every assertion.",
     ["src/filluninit.rs", "src/text/formatter/hex.rs", "src/text/parser/x86_64.rs", "src/text/parser/naive.rs", "src/byte/zip.rs", "src/streambuf.rs"],
     [("unchecked pointers and set_len", "src/filluninit.rs, src/text/formatter/hex.rs, src/text/parser/x86_64.rs"), ("margins", "src/streambuf.rs MARGIN_SIZE")],
     "AddressSanitizer and MemorySanitizer builds of both ISAs (buffers without slack, instrumented standard library) and the Miri interpreter on the whole real program, driven by generated, hostile and model-checked workloads", "no report on the executions counted; Miri covers the portable and the vector routines on small streams, the latter without an aliasing model")

prop("C23", "nd streams: bounded memory and prompt progress",
     "Memory use does not grow with the length of the stream, and output for data already received is not withheld until the end of the input beyond a bounded lag, for every stage that does not inherently need the whole stream.",
     ["inputs", "histories", "schedules"], "stage combinations x stream lengths 8 MiB..; producers that pause",
     "The tests use streams shorter than a kilobyte and read them to the end.",
     ["src/streambuf.rs", "src/byte", "src/segment", "src/drain/scatter.rs"], [("consume as soon as possible", "src/streambuf.rs, the consume() of every node")],
     "runtime monitoring of resident memory at two stream lengths and of output progress while the producer is blocked", "bounds are generous constants (see DESIGN.md) on the sampled stage combinations")

prop("C24", "--patch-back threads are free of data races and deadlocks",
     "Under every interleaving of nd's threads and the command, --patch-back is free of data races, nd and the command never wait for each other forever, and nd ends once the command has ended.",
     ["schedules"], "sessions with editing, dropping, stalling, early-exiting and never-reading commands under injected delays, error paths included",
     "The single test runs one schedule without a race detector.",
     ["src/byte/tee.rs", "src/drain/patch.rs"], [("mutex and condition variable around the shared cache", "src/byte/tee.rs")],
     "ThreadSanitizer build (with an instrumented standard library) under schedule perturbation, Miri (data-race detector, randomised scheduler) on whole-program sessions with in-process commands, plus a quiescence-based deadlock monitor", "no report on the schedules counted in the evidence")

prop("C25", "The pager gets the complete output and nd waits for it",
     "When a pager is named (option first, else the environment), it receives on its standard input exactly the bytes that would have gone to stdout, nd ends only after it has ended, and a pager that quits early ends nd quietly; in-place editing ignores it.",
     ["inputs", "schedules", "configurations"], "option and environment spellings x slow, fast and quitting pagers x random pipelines",
     "No test involves a pager.",
     ["src/main.rs"], [("pager process", "src/main.rs build_drain / main_impl")],
     "runtime monitoring with recording pagers; ordering monitor on the end of nd and of the pager", "no violation on the sessions counted; the default pager is driven on a pseudo terminal")

prop("C26", "An invalid command line is refused before it has any effect",
     "Mutually exclusive options, repeated use of standard input, out-of-domain numbers, malformed ranges, formats and templates are refused with a non-zero status and a message, before anything is written to stdout or any file is created, changed or removed.",
     ["configurations", "inputs"], "all pairs of exclusive options, all combinations of stdin uses, malformed arguments of every option, in plain, in-place and file-output modes",
     "The option table is not tested as a program; conflicts are only reachable through main.",
     ["src/main.rs", "src/pipeline.rs", "src/mapper.rs", "src/eval.rs", "src/template.rs"], [("validation before the first effect", "src/pipeline.rs from_args / validate")],
     "runtime monitoring of exit status, output and a snapshot of the working directory around invalid invocations", "no violation on the invocations counted")


def main():
    from ndv import checks, checks2  # noqa: F401
    try:
        from ndv import checks3, checks4, checks5  # noqa: F401
    except ImportError:
        pass
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, *_ in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "hooks": {"guard": "cfg nd_verif (and cfg nd_verif_exact, cfg nd_verif_inproc)", "enable": "rustc --cfg nd_verif with ND_VERIF_BLOCK_SIZE=<bytes> in the environment sets the chunk size; --cfg nd_verif_exact leaves no slack behind the buffers; --cfg nd_verif_inproc replaces the command of --patch-back with one of a few in-process commands, for the interpreter; ndv/build.py does all of them",
                   "source_commits": ["25c2b89", "84baf1d"]},
         "checks": [], "not_applicable": []}
    for p, tech, note, level in P:
        if p["id"] not in checks.CHECKS:
            m["not_applicable"].append({"property": p["id"], "reason": "its check is being built"})
            continue
        m["checks"].append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": tech, "level": level, "level_note": note})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
