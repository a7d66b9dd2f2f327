from check import Job
import norm
FILES = ["normalize.c", "gdb_frame.c", "core_frame.c", "core_thread.c", "gdb_thread.c", "koops_stacktrace.c", "utils.c"]
FUNCS = ["call_match", "sr_gdb_frame_calls_func", "sr_core_frame_calls_func", "is_removable_glibc_with_above", "sr_gdb_is_exit_frame", "sr_core_thread_is_exit_frame",
         "sr_glibc_thread_find_exit_frame", "sr_core_thread_find_exit_frame", "sr_gdb_frame_is_removable", "find_new_function_name_glibc", "remove_func_prefix", "sr_normalize_gdb_frame",
         "next_functions_similar"]
HARNESS = "p15.c"
SECONDS = 12


def jobs():
    return [Job(f) for f in FUNCS]


RULE = ("random gdb and core threads (1..9, sometimes up to 60 frames) whose names and files come from the recognised lists, prefixed and altered forms, with absent names and files, normalized once and twice and compared frame by frame with an "
        "independent normalizer with tables of its own (including the 152 generated table entries); kernel oopses; whole gdb stack traces with crash threads and crash frames; pairing of unknown functions; types without normalization; under ASan")
ASSUMPTIONS = ["the table lookup in_word_set (generated by gperf) has a contract that is assumed; the bounded harness compares the table with its documented contents",
               "strstr is the trusted predicate Contains on text contents", "at most 5 variadic file names, checked at every call under contract", "names shorter than 2^30"]
BOUNDED = ["sr_normalize_gdb_thread, sr_normalize_core_thread, sr_normalize_koops_stacktrace, sr_normalize_gdb_stacktrace, sr_normalize_gdb_paired_unknown_function_names, sr_gdb_normalize_optimize_thread, "
           "sr_gdb_stacktrace_get_crash_frame: threads of up to 60 frames"]
NOTE = ("Every decision normalization takes about a frame is proved for all names and files, absent ones included: which frames exit, which lie on the abort path, which are internal, which name replaces which, what each prefix removal does to "
        "the text, and which exit frame is the lowest one. The variadic matchers are proved through the platform's argument list layout. The passes that edit the list are bounded; the edits themselves (remove_frame, remove_frames_above) are proved under P11.")
