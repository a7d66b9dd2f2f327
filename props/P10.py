from check import Job
import dup
from cmp import FRAMES
FILES = ["koops_frame.c", "core_frame.c", "python_frame.c", "ruby_frame.c", "js_frame.c", "gdb_frame.c", "java_frame.c", "generic_frame.c", "generic_thread.c",
         "core_thread.c", "gdb_thread.c", "java_thread.c", "gdb_stacktrace.c", "core_stacktrace.c", "java_stacktrace.c", "koops_stacktrace.c", "python_stacktrace.c", "ruby_stacktrace.c", "js_stacktrace.c",
         "gdb_sharedlib.c"]
FUNCS = (["sr_%s_frame_dup" % t for t in FRAMES] + ["sr_%s_thread_dup" % t for t in ("core", "gdb", "java")] + ["sr_gdb_sharedlib_dup"] +
         ["sr_%s_stacktrace_dup" % t for t in FRAMES])


def jobs():
    return [Job(f) for f in FUNCS] + [Job("sr_thread_dup", name="sr_thread_dup[%s]" % t, spec=dup.mk_gen(t)) for t in FRAMES]


HARNESS = "p10.c"
SECONDS = 8
RULE = "random frames, threads, stack traces and library lists of every type (lengths 0..6, absent strings, koops module lists) duplicated through the concrete and the generic interface: field by field comparison with an independent snapshot, a set of all reachable blocks to see sharing, and destruction of either side under ASan; non-trivial: more than one element"
ASSUMPTIONS = ["lists are well-formed and finite, strings are NUL-terminated; the crash thread of a core stack trace is NULL or one of its threads",
               "g_malloc returns a new object or does not return; g_strdup(v) and memcpy behave as documented (trusted models)",
               "the equality of a whole duplicated list follows from the per-element contract by induction over the list: every element's contract, the link to the copy of the rest, and the obligation that nothing returned by the recursive call is written afterwards are machine-checked",
               "the contents of the copied koops module list are those of g_strdupv (trusted); that it is the copy of the right list is proved"]
NOTE = ("All 25 duplication functions (frames, threads, library lists and stack traces of every type, and the type-generic entry) are under contract: every field of the struct, taken from the debug "
        "information, is equal, every string is NULL with the original's or a new string of equal content, sub-lists and siblings are the copies of the original's, and the frame condition is empty "
        "(nothing that existed before is written or freed). The harness runs the same statements on whole object graphs.")
