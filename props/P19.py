from check import Job
import lookup, cmp, spec
from cmp import FRAMES
FILES = ["gdb_sharedlib.c", "unstrip.c", "core_thread.c", "normalize.c", "core_stacktrace.c", "gdb_stacktrace.c", "java_stacktrace.c", "generic_stacktrace.c", "generic_thread.c",
         "koops_stacktrace.c", "python_stacktrace.c", "ruby_stacktrace.c", "js_stacktrace.c"]
FUNCS = ["sr_gdb_sharedlib_find_address", "sr_unstrip_find_address", "sr_core_thread_find_exit_frame", "sr_glibc_thread_find_exit_frame", "sr_core_stacktrace_find_crash_thread",
         "find_crash_thread_from_crash_frame", "sr_gdb_stacktrace_find_crash_thread", "sr_java_find_crash_thread"]


def jobs():
    c = dict(spec.CONTRACTS, thread_cmp_dont_compare_number=lookup.weak_thread_cmp)
    return [Job(f, contracts=c) for f in FUNCS] + [Job("sr_stacktrace_find_crash_thread", name="sr_stacktrace_find_crash_thread[%s]" % t, spec=lookup.mk_generic(t)) for t in FRAMES]


HARNESS = "p19.c"
SECONDS = 8
RULE = "random library and mapping lists (overlapping, empty, touching both ends of the address space) and addresses near their borders against a linear search in 128-bit arithmetic; random gdb and core traces with exit functions, marked threads, equal top frames against an independent model, with a snapshot of the trace; under ASan; non-trivial: something is found among several candidates"
ASSUMPTIONS = ["sr_core_thread_is_exit_frame and sr_gdb_is_exit_frame are functions of the frame (assumed contract, their tables use variadic calls); the bounded harness compares them with a copy of the documented table",
               "where several threads have the crash frame on top and none ended the program, the proof shows only that the result is one of them; the harness checks that it is the smallest",
               "sr_unstrip_parse and sr_gdb_stacktrace_get_crash_frame are checked by the bounded harness only"]
BOUNDED = ["sr_unstrip_parse: up to 6 lines", "sr_gdb_stacktrace_get_crash_frame: up to 5 threads of up to 4 frames", "exit-frame tables: names and files from a pool of 17 and 12"]
NOTE = ("Both address searches, the exit-frame searches and the crash-thread searches (gdb, core, java, and the generic entry for all seven types) are proved for lists of any length: "
        "the first match, or nothing, and an empty frame condition (nothing is modified). The tables of exit functions and the parser of the mapping list are bounded.")
