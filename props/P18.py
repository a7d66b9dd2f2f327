from check import Job
import fprint, spec
from cmp import FRAMES
FILES = ["koops_frame.c", "core_frame.c", "python_frame.c", "ruby_frame.c", "js_frame.c", "gdb_frame.c", "java_frame.c", "generic_frame.c", "generic_thread.c", "generic_stacktrace.c",
         "core_thread.c", "gdb_thread.c", "java_thread.c", "gdb_stacktrace.c", "core_stacktrace.c", "java_stacktrace.c", "koops_stacktrace.c", "python_stacktrace.c", "ruby_stacktrace.c", "js_stacktrace.c"]
FUNCS = ["sr_thread_get_duphash"]
OPT = {"trusted": fprint.TEXT}


def jobs():
    js = []
    for t in FRAMES:
        for fn, what in (("frame_append_bthash_text", "bt"), ("frame_append_duphash_text", "dup"), ("thread_append_bthash_text", "thread")):
            js.append(Job(fn, name="%s[%s]" % (fn, t), spec=fprint.mk_app(t, what), opts=OPT))
    c = dict(spec.CONTRACTS, **fprint.HASHC)
    js.append(Job("sr_thread_get_duphash", opts=OPT, contracts=c))
    b = dict(spec.CONTRACTS, **fprint.BTC)
    for t in ("core", "gdb", "java", "python", "ruby", "js"):
        js.append(Job("sr_stacktrace_get_bthash", name="sr_stacktrace_get_bthash[%s]" % t, spec=fprint.mk_bthash(t), opts=OPT, contracts=b))
    return js


HARNESS = "p18.c"
SECONDS = 8
RULE = ("random threads and stack traces of all seven types (0 to 8 frames, absent strings, 0 to 3 threads, libraries, kernel modules), all flag combinations, frame limits including 0, 1, more than the length and negative, prefixes: the text is built by an independent "
        "writer from a normalized copy, its SHA-1 computed through GChecksum; every hash is computed twice and the trace compared with a snapshot; under ASan; non-trivial: at least two frames are hashed")
ASSUMPTIONS = ["the text of a GString is modelled as a term: a text followed by a character, a string (its content) or the digits of a number; that printf writes the digits of the number it is given is trusted; text lengths are mathematical integers",
               "SHA-1 is g_compute_checksum_for_string (trusted, a function of the text)",
               "sr_thread_dup, sr_thread_free and the list accessors by what P10 and P11 prove of them; sr_thread_normalize only changes the copy (P15) and leaves a finite list",
               "the table of the listed fields in specs/fprint.py is the documentation of what is hashed: it was written from the code, and is compared with it on every run",
               "strings are NUL-terminated, lists finite (fewer than 2^30 elements)"]
BOUNDED = ["sr_stacktrace_get_bthash of a kernel oops (its version, flags and module lines): up to 4 modules, 4 frames"]
NOTE = ("Which fields every frame, thread and stack trace contributes, in which order and with which separators, is proved for all seven types; the frame limit (frames that contribute nothing are not counted), the prefix, the header, the compatibility mode, "
        "the choice between text and hash, and that nothing but new objects is written, are proved for all lists, limits and flags. The taint flags of a kernel oops do not enter its backtrace hash (known finding).")
