from check import Job
import lst
from cmp import FRAMES
FILES = ["koops_frame.c", "core_frame.c", "python_frame.c", "ruby_frame.c", "js_frame.c", "gdb_frame.c", "java_frame.c", "generic_frame.c", "generic_thread.c",
         "core_thread.c", "gdb_thread.c", "java_thread.c", "gdb_stacktrace.c", "core_stacktrace.c", "java_stacktrace.c", "koops_stacktrace.c", "python_stacktrace.c", "ruby_stacktrace.c", "js_stacktrace.c",
         "gdb_sharedlib.c", "rpm.c"]
FUNCS = (["sr_%s_frame_append" % t for t in FRAMES] + ["sr_%s_thread_append" % t for t in ("core", "gdb", "java")] +
         ["sr_gdb_sharedlib_append", "sr_rpm_package_append", "sr_rpm_consistency_append", "sr_gdb_sharedlib_count", "sr_rpm_package_count", "sr_java_frame_get_last",
          "sr_gdb_stacktrace_get_thread_count", "sr_core_stacktrace_get_thread_count"] +
         ["sr_%s_frame_free" % t for t in FRAMES] + ["sr_gdb_sharedlib_free"] + ["sr_%s_thread_free" % t for t in ("core", "gdb", "java")] + ["sr_java_frame_free_full",
          "sr_gdb_thread_remove_frame", "sr_java_thread_remove_frame", "sr_koops_stacktrace_remove_frame", "sr_gdb_thread_remove_frames_above", "sr_java_thread_remove_frames_above",
          "sr_gdb_thread_remove_frames_below_n", "sr_java_thread_remove_frames_below_n", "sr_gdb_stacktrace_remove_threads_except_one"])


def jobs():
    js = [Job(f) for f in FUNCS]
    for t in FRAMES:
        js.append(Job("sr_thread_frame_count", name="sr_thread_frame_count[%s]" % t, spec=lst.mk_gcount(t)))
        js.append(Job("sr_thread_remove_frame", name="sr_thread_remove_frame[%s]" % t, spec=lst.mk_remove(t, True)))
        js.append(Job("sr_thread_remove_frames_above", name="sr_thread_remove_frames_above[%s]" % t, spec=lst.mk_above(t, True)))
    return js


HARNESS = "p11.c"
SECONDS = 8
RULE = "random lists of every type (lengths 0..6, equal elements, absent frames) edited through the concrete and the type-generic interface, compared element by element with a snapshot, under ASan; non-trivial: more than one element"
ASSUMPTIONS = ["lists are well-formed: distinct elements, no cycles, every frame owns its strings (shared strings excluded)",
               "g_free and free release exactly the given object (trusted model)",
               "sr_gdb_stacktrace_limit_frame_depth and the whole-stack-trace free functions are only exercised by the bounded harness"]
NOTE = ("Append, count, get_last, free, remove_frame, remove_frames_above, remove_frames_below_n and remove_threads_except_one are under contract for every type and through the "
        "type-generic interface: for lists of any length exactly one link cell changes, exactly the objects owned by the removed elements are freed (everything else keeps its "
        "contents and stays allocated), and the result is the truth about membership.")
