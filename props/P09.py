from check import Job
import cmp
import spec
from cmp import FRAMES, CODES, mk_generic, mk_generic_diff, mk_generic_thread
FILES = ["koops_frame.c", "core_frame.c", "python_frame.c", "ruby_frame.c", "js_frame.c", "gdb_frame.c", "java_frame.c", "generic_frame.c", "generic_thread.c", "koops_stacktrace.c", "python_stacktrace.c", "ruby_stacktrace.c", "js_stacktrace.c",
         "core_thread.c", "gdb_thread.c", "java_thread.c", "java_stacktrace.c", "gdb_stacktrace.c", "rpm.c", "location.c"]
FUNCS = (["sr_%s_frame_cmp" % t for t in FRAMES] + ["sr_%s_frame_cmp_distance" % t for t in FRAMES] +
         ["sr_core_thread_cmp", "sr_gdb_thread_cmp", "sr_java_thread_cmp", "sr_java_stacktrace_cmp", "thread_cmp_dont_compare_number", "sr_rpm_package_cmp_nvr",
          "sr_rpm_package_cmp_nevra", "sr_rpm_package_cmp", "sr_rpm_consistency_cmp", "sr_rpm_consistency_cmp_recursive", "sr_location_cmp"])


LEMMAS = ["lexorder"]


def jobs():
    js = [Job(f) for f in FUNCS]
    for fn, d in (("sr_frame_cmp", False), ("sr_frame_cmp_distance", True)):
        for t in FRAMES:
            js.append(Job(fn, name="%s[%s]" % (fn, t), spec=mk_generic(fn, t, d)))
        js.append(Job(fn, name="%s[different types]" % fn, spec=mk_generic_diff(fn)))
    for t in ("core", "gdb", "java"):
        js.append(Job("sr_thread_cmp", name="sr_thread_cmp[%s]" % t, spec=mk_generic_thread(t, "sr_%s_thread_cmp" % t)))
    js.append(Job("sr_thread_cmp", name="sr_thread_cmp[different types]", spec=mk_generic_diff("sr_thread_cmp")))
    return js


HARNESS = "p09.c"
SECONDS = 8
RULE = "random frames, threads, packages, locations and single-field variations of them (boundary numbers, absent strings) against an independently written field order; non-trivial: both sides non-empty / different types"
ASSUMPTIONS = ["locations carry non-negative line and column", "string order is strcmp order (trusted model of g_strcmp0/strcmp)"]
NOTE = ("Every comparison function (7 frame types, distance comparisons, core/gdb/java threads, java stack traces, packages, consistency lists, locations, and the type-generic "
        "dispatch per type) has a full contract: the sign of the result is the lexicographic order of an explicit list of field keys, for all values; sequences are compared "
        "over ghost lists of unbounded length. That such orders are antisymmetric, transitive and zero only on equal keys are lemmas discharged on each run.")
