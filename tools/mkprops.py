#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSON lines are unpleasant to edit)."""
import json, os
P = []


def prop(id, title, statement, over, q, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("P01", "Text scanners consume exactly what they match and never pass the end",
     "Every text-scanning helper (skip/parse of characters, spans, fixed strings, decimal and hexadecimal numbers, whitespace) "
     "moves the input pointer by exactly the maximal (or fixed) match it reports, never past the terminating NUL, and leaves the input "
     "and its output parameter untouched when nothing matches. Numbers are delivered with their exact value and are rejected, with "
     "the input unchanged, when they do not fit (decimal 64-bit parsing accepts values up to 2^64-2).",
     ["inputs"], "every NUL-terminated text shorter than 2^31, every position in it, every character set / literal / output cell",
     "The unit tests try a handful of short literals per helper; maximality, the end-of-string boundary and numeric limits "
     "quantify over all texts.",
     ["lib/utils.c", "include/utils.h"],
     [("sr_skip_char*/sr_parse_char*/sr_skip_string/sr_parse_string", "lib/utils.c"),
      ("sr_parse_uint32/uint64/hexadecimal*", "lib/utils.c"), ("sr_skip_whitespace/non_whitespace", "lib/utils.c")],
     ["return value, *input and *result of each helper"])

prop("P02", "Reported line and column always equal the position in the text",
     "A location advanced over a piece of text (character by character, by a string, or by adding the location of a consumed chunk) "
     "reports the line and column of the first unconsumed character: the line grows by one per newline, and the column is the number of "
     "characters since the last newline. The location-aware search helpers (character search, substring search, character-class span, skip to next line) report "
     "the same position as counting newlines and columns of the text they passed over.",
     ["inputs"], "all texts, all start locations, all split points of a text into chunks, all needles and character sets",
     "Tests check a few fixed error locations; the law is compositional over arbitrary text and chunking.",
     ["lib/location.c", "lib/utils.c", "include/location.h"],
     [("sr_location_eat_char/_ext, sr_location_add/_ext, sr_location_cmp", "lib/location.c"),
      ("sr_strchr_location, sr_strstr_location, sr_strspn_location, sr_skip_char_span_location, sr_skip_to_next_line_location", "lib/utils.c")],
     ["line/column out-parameters and struct sr_location"])

prop("P03", "GDB backtrace parsing is memory-safe, exact and all-or-nothing",
     "Parsing any NUL-terminated text as a GDB frame, thread, shared-library list or whole backtrace terminates and never reads outside the text; "
     "when a frame, thread or library list cannot be parsed the input pointer is left where it was and nothing is returned, and when it can, the input "
     "pointer ends exactly behind the consumed text. A frame printed in GDB's format yields exactly the number, address, function name, "
     "source file, line and library it states, and a backtrace yields its threads and frames in order.",
     ["inputs"], "all texts; for exactness all frames/threads expressible in GDB's output format",
     "Tests parse some recorded backtraces; malformed, truncated and adversarial texts and every optional-part combination are unbounded.",
     ["lib/gdb_frame.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/gdb_sharedlib.c"],
     [("sr_gdb_frame_parse and its sub-parsers", "lib/gdb_frame.c"), ("sr_gdb_thread_parse", "lib/gdb_thread.c"),
      ("sr_gdb_stacktrace_parse", "lib/gdb_stacktrace.c"), ("sr_gdb_sharedlib_parse", "lib/gdb_sharedlib.c")],
     ["returned structures, *input, location"])

prop("P04", "Kernel oops parsing is memory-safe and extracts exactly what the text states",
     "Parsing any NUL-terminated text as a kernel oops terminates and never reads outside the text. A stack line printed in the kernel's format "
     "yields exactly its address, reliability ('?' mark), function name, offset, length, module and 'from' part, and every 'Modules linked in' "
     "list and taint flag letter is reported exactly as it appears.",
     ["inputs"], "all texts; for exactness all stack lines, module lists and flag combinations the kernel can print",
     "Tests use a few recorded oopses; the kernel's line formats combine freely and hostile logs are unbounded.",
     ["lib/koops_frame.c", "lib/koops_stacktrace.c"],
     [("sr_koops_frame_parse, sr_koops_skip_timestamp, sr_koops_parse_address/module_name/function", "lib/koops_frame.c"),
      ("sr_koops_stacktrace_parse, parse_alt_stack_end, sr_koops_stacktrace_parse_modules, sr_koops_stacktrace_get_taint", "lib/koops_stacktrace.c")],
     ["returned structures, *input"])

prop("P05", "Java, Python, Ruby and JavaScript traces parse safely and exactly",
     "Parsing any NUL-terminated text as a Java, Python, Ruby or JavaScript stack trace terminates, never reads outside the text, and either returns "
     "a stack trace or returns nothing with an error location. A trace printed in the runtime's own format yields its frames in order with exactly the file, "
     "line, column, function and class or exception names that were printed.",
     ["inputs"], "all texts; for exactness all traces in the runtime's format",
     "Tests parse recorded traces; truncations and unusual names/paths are unbounded.",
     ["lib/java_frame.c", "lib/java_thread.c", "lib/java_stacktrace.c", "lib/python_frame.c", "lib/python_stacktrace.c",
      "lib/ruby_frame.c", "lib/ruby_stacktrace.c", "lib/js_frame.c", "lib/js_stacktrace.c", "lib/js_platform.c"],
     [("sr_*_stacktrace_parse / sr_*_frame_parse", "lib/{java,python,ruby,js}_*.c")],
     ["returned structures, location, *input"])

prop("P06", "Text embedded in JSON is escaped so that it decodes to itself",
     "Any string written into a JSON report is emitted as one quoted JSON string literal that decodes to exactly the original bytes, with every quote, backslash "
     "and control character escaped. Re-indenting a JSON text inserts only spaces after newlines (never before the first line in the except-first-line variant) and changes nothing else.",
     ["inputs"], "all byte strings; all texts and indentation widths",
     "Tests serialise a few plain identifiers; escaping quantifies over all byte strings.",
     ["lib/json_utils.c", "lib/json_utils.h", "lib/utils.c"],
     [("sr_json_append_escaped", "lib/json_utils.c"), ("sr_indent, sr_indent_except_first_line", "lib/utils.c")],
     ["emitted text"])

prop("P07", "Stack traces survive the JSON round trip",
     "For every crash type, serialising a stack trace, thread or frame to JSON and reading it back yields an equal object: the same frames in the same order with all the same "
     "field values, including absent strings, boundary integers and 64-bit addresses. The emitted text is always valid JSON, whatever the field values.",
     ["inputs"], "all stack traces of each type (core, koops, Python, Java, Ruby, JavaScript), all field values",
     "Tests round-trip one or two fixed traces per type; missing/extreme fields and all lengths are not covered.",
     ["lib/core_frame.c", "lib/core_thread.c", "lib/core_stacktrace.c", "lib/koops_frame.c", "lib/koops_stacktrace.c",
      "lib/python_frame.c", "lib/python_stacktrace.c", "lib/java_frame.c", "lib/java_thread.c", "lib/java_stacktrace.c",
      "lib/ruby_frame.c", "lib/ruby_stacktrace.c", "lib/js_frame.c", "lib/js_stacktrace.c", "lib/json_utils.c"],
     [("*_to_json / *_from_json", "lib/*_frame.c, lib/*_thread.c, lib/*_stacktrace.c"), ("json_read_*", "lib/json_utils.c")],
     ["emitted JSON text and the object read back"])

prop("P08", "Reports survive the JSON round trip",
     "Serialising a crash report to JSON and reading it back preserves the report type, reporter, user, operating system, component, serial, "
     "packages (in order, with role, epoch, name, version, release and architecture), the stack trace and the auth entries. "
     "The emitted text is valid JSON for every report.",
     ["inputs"], "all reports with every combination of present and absent parts and all field values",
     "Tests round-trip one fixture; combinations of optional parts and extreme values are not covered.",
     ["lib/report.c", "lib/operating_system.c", "lib/rpm.c", "lib/json_utils.c"],
     [("sr_report_to_json / sr_report_from_json_text", "lib/report.c"),
      ("sr_operating_system_to_json / _from_json", "lib/operating_system.c"), ("sr_rpm_package_to_json / packages_from_json", "lib/rpm.c")],
     ["emitted JSON text and the report read back"])

prop("P09", "Comparisons are consistent total orders that see every field",
     "Each comparison function on frames, threads, stack traces' parts, packages and locations is a consistent order: it returns 0 exactly when all fields it covers are equal, the "
     "results for (a,b) and (b,a) have opposite signs, and it is transitive. This holds for all field values, including values that differ only in high bits or by more than the signed range, and absent strings. "
     "The looser frame comparison used by the distance metrics agrees, in both argument orders, on whether two frames match.",
     ["inputs"], "all pairs and triples of objects",
     "Tests compare a few hand-made pairs; the laws quantify over all pairs/triples and extreme values.",
     ["lib/gdb_frame.c", "lib/core_frame.c", "lib/koops_frame.c", "lib/python_frame.c", "lib/java_frame.c", "lib/ruby_frame.c",
      "lib/js_frame.c", "lib/gdb_thread.c", "lib/core_thread.c", "lib/java_thread.c", "lib/generic_frame.c", "lib/generic_thread.c", "lib/rpm.c", "lib/location.c"],
     [("sr_*_frame_cmp, *_frame_cmp_distance", "lib/*_frame.c"), ("sr_*_thread_cmp, thread_cmp", "lib/*_thread.c"),
      ("sr_rpm_package_cmp*, sr_location_cmp", "lib/rpm.c, lib/location.c")],
     ["sign of the comparison result"])

prop("P10", "Duplicating an object yields an equal, fully independent copy",
     "Duplicating a frame, thread, stack trace or shared-library list yields an object equal to the original in every field and element, and the original is left unchanged. "
     "The copy shares no memory with the original, so that freeing or changing either leaves the other intact.",
     ["inputs"], "all objects of each type, all lengths, all optional fields absent or present",
     "Tests duplicate one or two small objects and compare a few fields; aliasing is invisible to them.",
     ["lib/gdb_frame.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/gdb_sharedlib.c", "lib/core_frame.c", "lib/core_thread.c", "lib/core_stacktrace.c",
      "lib/koops_frame.c", "lib/koops_stacktrace.c", "lib/python_frame.c", "lib/python_stacktrace.c", "lib/java_frame.c", "lib/java_thread.c",
      "lib/java_stacktrace.c", "lib/ruby_frame.c", "lib/ruby_stacktrace.c", "lib/js_frame.c", "lib/js_stacktrace.c"],
     [("sr_*_dup", "lib/*.c")],
     ["copy and original field by field"])

prop("P11", "Frame and thread list operations edit the list exactly as asked",
     "Appending, counting, removing a given frame, removing everything above a frame, keeping only the first n frames, and "
     "removing or selecting threads act on the list as on a sequence: exactly the requested elements go away, all others stay, in order and unmodified, and the result tells truthfully whether the element was found. "
     "This holds for every crash type through the type-generic interface.",
     ["inputs", "histories"], "all list lengths, all positions, elements present or absent, all crash types",
     "Tests use lists of two or three elements; linked-list surgery must hold for every length and position.",
     ["lib/generic_thread.c", "lib/generic_frame.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/gdb_frame.c", "lib/core_frame.c", "lib/koops_frame.c",
      "lib/python_frame.c", "lib/java_frame.c", "lib/ruby_frame.c", "lib/js_frame.c", "lib/java_thread.c", "lib/core_thread.c"],
     [("sr_thread_remove_frame / _remove_frames_above / _remove_frames_below_n / _frame_count", "lib/generic_thread.c"),
      ("sr_*_frame_append, sr_*_thread_append", "lib/*_frame.c, lib/*_thread.c"), ("sr_gdb_stacktrace_remove_threads_except_one, sr_gdb_stacktrace_get_frame/limit", "lib/gdb_stacktrace.c")],
     ["sequence of list elements"])

prop("P12", "Thread distances are symmetric, bounded, and zero on identical threads",
     "For any two threads the Levenshtein distance lies in [0,1], is 0 for identical threads and equals the (Damerau-)Levenshtein edit distance "
     "of the frame sequences divided by the longer length; the Jaccard distance lies in [0,1] and equals one minus the ratio of common to all distinct frames; threads of different crash types have distance 1. "
     "All thread metrics give the same value when the two threads are swapped. Frames are the same when the type's frame comparison for distances says so; frames without a known function name are the same as no other frame (for threads that contain them only the edit distance formula is claimed).",
     ["inputs"], "all pairs of threads of any lengths, with any frame equality pattern",
     "Tests check a few pairs; range, symmetry and exactness quantify over all pairs of frame sequences.",
     ["lib/distance.c", "include/distance.h"],
     [("distance_levenshtein, distance_jaccard, distance_jaro_winkler, sr_distance", "lib/distance.c")],
     ["returned distance"])

prop("P13", "Distance matrices store and merge every pair exactly once",
     "A distance matrix of m by n entries keeps one independent value for every pair i<j with i<m, j<n: reading a pair, in either order, returns the last value set for it and nothing else changes. "
     "Splitting a comparison of threads into any number of parts covers every pair exactly once, and merging the computed parts equals the distances computed in one go.",
     ["inputs", "histories"], "all matrix shapes 0<m<=n, all pairs, all split counts, all orders of parts",
     "Tests use tiny matrices and a few split counts; triangular indexing and partitioning must hold for every shape and count.",
     ["lib/distance.c"],
     [("sr_distances_new/_get_distance/_set_distance/_dup, get_distance_position", "lib/distance.c"),
      ("sr_distances_part_create/_compute, sr_distances_part_merge, sr_threads_compare", "lib/distance.c")],
     ["matrix values by pair"])

prop("P14", "Clustering partitions the objects consistently",
     "The dendrogram built from any distance matrix lists every object exactly once, with one merge level between each two neighbours. "
     "Cutting it at a level yields disjoint groups of consecutive objects, each of at least the requested size, separated exactly where a merge level exceeds the cut level, and every such maximal group appears.",
     ["inputs"], "all distance matrices, all cut levels and minimum sizes",
     "Tests cluster one or two small fixed matrices.",
     ["lib/cluster.c"],
     [("sr_distances_cluster_objects", "lib/cluster.c"), ("sr_dendrogram_cut", "lib/cluster.c")],
     ["dendrogram order/merge levels, cluster lists"])

prop("P15", "Normalization only removes or rewrites what it is meant to",
     "Normalizing a thread or backtrace never adds or reorders frames: what remains is a subsequence of the original frames. What disappears are exactly the lowest exit frame and everything above it, frames recognised by name and "
     "file as allocation-, error-handling- or runtime-internal (with everything above them when they lie on the abort path), one null-address unknown frame at each end, and direct repetitions of a known function. Only names are rewritten: "
     "the known library prefixes, architecture suffixes and kernel '.' suffixes go, and core file names are anonymized. A second pass changes nothing except that it removes a further null-address unknown frame or stacked prefix. "
     "Normalization never fails on absent names or file names.",
     ["inputs"], "all threads of any length with any combination of function, file and library names, present or absent",
     "Tests normalize a few recorded backtraces.",
     ["lib/normalize.c", "lib/generic_thread.c"],
     [("sr_normalize_gdb_thread, sr_normalize_core_thread, sr_normalize_koops_stacktrace, sr_normalize_gdb_paired_unknown_function_names, sr_gdb_normalize_optimize_thread, sr_core_normalize...", "lib/normalize.c"),
      ("remove_frame / remove_frames_above", "lib/generic_thread.c")],
     ["frames of the thread after normalization"])

prop("P16", "Package lists are merged and parsed without losing information",
     "Sorting a package list yields the same packages in order, and removing duplicates leaves exactly one entry per distinct package, keeping the affected role when any of the duplicates had it. "
     "Splitting name-version-release and name-epoch-version-release-architecture strings yields exactly the parts separated by the last separators, or fails leaving no partial result; appending and counting preserve order.",
     ["inputs"], "all package lists and all strings",
     "Tests use one or two short lists and well-formed strings.",
     ["lib/rpm.c"],
     [("sr_rpm_package_sort, sr_rpm_package_uniq, sr_rpm_package_append/_count", "lib/rpm.c"),
      ("sr_rpm_package_parse_nvr, sr_rpm_package_parse_nevra", "lib/rpm.c")],
     ["package list contents"])

prop("P17", "os-release data and paths are decoded exactly",
     "Reading an os-release text delivers every KEY=VALUE line once, in order, with the value unquoted and backslash escapes resolved, ignoring malformed lines, and never reads outside the text; the operating system's name, version, CPE and "
     "rawhide marker follow from these values. Anonymizing a path replaces exactly the user component below the home directory and leaves any other path unchanged.",
     ["inputs"], "all os-release texts and all paths",
     "Tests use a few distribution files.",
     ["lib/utils.c", "lib/operating_system.c"],
     [("sr_parse_os_release", "lib/utils.c"), ("sr_operating_system_parse_etc_os_release / _etc_system_release", "lib/operating_system.c"),
      ("anonymize_path", "lib/utils.c")],
     ["callback key/value pairs, operating system fields, returned path"])

prop("P18", "Crash fingerprints depend exactly on the documented data",
     "The duplication hash and backtrace hash of a thread or stack trace are deterministic functions of the crash type, the requested frame limit and the relevant fields of the frames: two "
     "threads whose relevant fields agree get the same hash, and the text that is hashed lists the frames in order, cut at the frame limit, so that a change in a relevant field of a used frame changes it. Computing a hash does not modify the trace.",
     ["inputs", "configurations"], "all threads of all types, all frame limits, all flag combinations",
     "Tests pin a handful of hash values.",
     ["lib/generic_thread.c", "lib/generic_stacktrace.c", "lib/core_frame.c", "lib/koops_frame.c", "lib/python_frame.c", "lib/java_frame.c", "lib/ruby_frame.c", "lib/js_frame.c", "lib/gdb_frame.c"],
     [("sr_thread_get_duphash, sr_stacktrace_get_bthash", "lib/generic_thread.c, lib/generic_stacktrace.c"),
      ("*_append_bthash_text / *_append_duphash_text", "lib/*_frame.c, lib/*_stacktrace.c")],
     ["hash text (with the no-hash flag) and hash value"])

prop("P19", "Address and crash-thread lookups return the right element",
     "Looking up an address in a shared-library list or in a core dump's mapping list returns the first entry whose address range contains it, and nothing when no range does. "
     "The crash thread found in a stack trace is the thread the trace itself designates (the marked or only thread, or the one containing the crash signal), and lookups never modify what they search.",
     ["inputs"], "all lists, all addresses, all traces",
     "Tests look up one or two addresses in one list.",
     ["lib/gdb_sharedlib.c", "lib/unstrip.c", "lib/gdb_stacktrace.c", "lib/core_stacktrace.c"],
     [("sr_gdb_sharedlib_find_address, sr_gdb_sharedlib_count/_append", "lib/gdb_sharedlib.c"), ("address lookup in unstrip data", "lib/unstrip.c"),
      ("sr_gdb_stacktrace_find_crash_thread / _find_crash_frame, sr_core_stacktrace_find_crash_thread", "lib/gdb_stacktrace.c, lib/core_stacktrace.c")],
     ["returned element"])

prop("P20", "Small conversions are exact inverses of what they encode",
     "Removing adjacent duplicate strings keeps one of each run in order and reports the right count; binary-to-hexadecimal conversion writes exactly two lowercase digits per byte, which read back to the byte; "
     "crash-type codes and their textual names convert to each other without loss, and unknown codes and names are reported as invalid.",
     ["inputs"], "all string arrays, all byte strings, all type codes and names",
     "Tests convert a few examples.",
     ["lib/utils.c", "lib/report.c"],
     [("sr_struniq, sr_bin2hex", "lib/utils.c"), ("sr_report_type_to_string / _from_string", "lib/report.c")],
     ["returned values and buffers"])

prop("P21", "Python bindings mirror the C library faithfully",
     "Every attribute and method of the Python classes reads and writes exactly the corresponding field of the underlying C object, rejects values that do not fit, and keeps "
     "lists on the Python side in step with the C lists.",
     ["inputs", "histories"], "all attribute values and method call sequences",
     "Tests touch each attribute with one or two values.",
     ["python"], [("getters/setters and list synchronisation", "python/*.c")])

prop("P22", "Core dump unwinding and ELF analysis report what the binary contains",
     "Unwinding a core dump yields the true call chain, and function fingerprints, build ids and disassembly-derived call graphs "
     "correspond to the machine code in the file.",
     ["inputs", "configurations"], "all core dumps and ELF files",
     "Tests use one generated core file.",
     ["lib/core_unwind.c", "lib/core_unwind_elfutils.c", "lib/elves.c", "lib/disasm.c", "lib/callgraph.c"],
     [("sr_parse_coredump, sr_elf_get_procedure_linkage_table, disasm_*", "lib/*.c")])

prop("P23", "Report attachments created from a problem directory match its files",
     "Creating a report or stack trace from a problem directory reads exactly the files the problem type defines, and file helpers return the whole file or an error message.",
     ["inputs", "fault_sequences"], "all problem directories and all I/O failures",
     "Tests use a few directories and no I/O faults.",
     ["lib/abrt.c", "lib/utils.c"], [("sr_abrt_report_from_dir, sr_file_to_string, sr_string_to_file", "lib/abrt.c, lib/utils.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
