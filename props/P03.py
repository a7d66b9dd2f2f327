from check import Job
import gdbp
FILES = ["utils.c", "location.c", "gdb_frame.c", "gdb_thread.c", "gdb_sharedlib.c", "gdb_stacktrace.c"]
FUNCS = ["sr_gdb_frame_parse_frame_start", "sr_gdb_frame_parseadd_operator", "sr_gdb_frame_parse_function_name_chunk", "sr_gdb_frame_parse_function_name_template_args",
         "sr_gdb_frame_parse_function_name_braces", "sr_gdb_frame_parse_function_name_template", "sr_gdb_frame_parse_function_name", "sr_gdb_frame_skip_function_args",
         "sr_gdb_frame_parse_function_call", "sr_gdb_frame_parse_address_in_function", "sr_gdb_frame_parse_file_location", "sr_gdb_frame_parse_header", "findfirstabnul", "sr_gdb_frame_parse", "sr_skip_string", "sr_skip_char_span_location", "sr_gdb_thread_parse_lwp", "sr_gdb_thread_skip_lwp",
         "sr_gdb_frame_append", "sr_gdb_thread_free", "sr_gdb_thread_parse", "find_sharedlib_section_start", "sr_gdb_sharedlib_parse", "sr_gdb_thread_parse_funs",
         "sr_strchr_location", "sr_strstr_location", "sr_gdb_thread_append", "sr_gdb_stacktrace_parse_header", "sr_gdb_stacktrace_parse"]
HARNESS = "p03.c"
SECONDS = 8


def jobs():
    return [Job(f, contracts=gdbp.C, spec=gdbp.C[f], opts=gdbp.OPT) for f in FUNCS]


RULE = ("backtraces printed from random descriptions (threads, frames with every form of the header: addresses, function names with operators, templates, scopes and types, arguments that span lines, source positions, libraries, signal frames, variables between the frames; shared library lists), "
        "parsed and compared field by field with the description; random, cut and mutated texts in exactly sized buffers for memory safety, termination and the input pointer; under ASan; non-trivial: at least one thread or frame")
ASSUMPTIONS = ["texts are NUL-terminated and shorter than 2^31 characters",
               "line and column counters do not overflow (their values are the subject of P02)",
               "a GString is modelled by its length: the characters of the names are compared in the bounded part",
               "the nesting of templates, braces and parentheses is limited by the stack only (recursion is proved through the function's own contract, depth is not bounded)",
               "sr_gdb_stacktrace_free releases only the objects of the new backtrace it is given (its list walks are exercised by the bounded part)",
               "g_string_free(NULL) does nothing, as GLib documents for invalid arguments; memory allocation succeeds"]
BOUNDED = ["sr_gdb_stacktrace_set_libnames: generated backtraces only",
           "that the parsed fields equal what the text states: generated frames, threads, backtraces and library lists only"]
NOTE = ("For all texts, the parsers of a frame of gdb's output (start, operator names, name parts, templates, braces, whole names, argument lists, calls, addresses, source positions, headers, whole frames), whole threads, thread ids, function lists, shared library lists, the header of a backtrace and whole backtraces are proved to read inside the text only, "
        "and to be all or nothing: each either moves the input forward inside the text by exactly what it reports and delivers new strings of its own, or leaves input and outputs as they were. The exact values of the fields are bounded.")
