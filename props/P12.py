from check import Job
import tdist, lst, spec
from cmp import FRAMES
FILES = ["distance.c", "koops_frame.c", "core_frame.c", "python_frame.c", "ruby_frame.c", "js_frame.c", "gdb_frame.c", "java_frame.c", "generic_frame.c", "generic_thread.c",
         "core_thread.c", "gdb_thread.c", "java_thread.c", "koops_stacktrace.c", "python_stacktrace.c", "ruby_stacktrace.c", "js_stacktrace.c"]
FUNCS = ["sr_distance"]


def jobs():
    js = [Job("sr_distance", contracts=dict(spec.CONTRACTS, **{n: tdist.mk_part(n) for n in tdist.ALGO}))]
    for t in FRAMES:
        c = dict(spec.CONTRACTS)
        c["sr_%s_frame_cmp_distance" % t] = tdist.mk_weak(t)
        contain = tdist.mk_contain(t)
        c2 = dict(c, distance_jaccard_frames_contain=contain)
        js.append(Job("distance_jaccard_frames_contain", name="distance_jaccard_frames_contain[%s]" % t, spec=contain, contracts=c))
        js.append(Job("distance_jaccard", name="distance_jaccard[%s]" % t, spec=tdist.mk_jaccard(t), contracts=c2))
    return js


LEMMAS = ["jac"]
HARNESS = "p12.c"
SECONDS = 8
RULE = ("random pairs of threads of all seven types (equal, edited copies of each other, or unrelated; 0 to 11 frames): both edit distances against the textbook dynamic program on the full matrix, "
        "Jaccard against sets, Jaro-Winkler against its formula, bounds, symmetry, 0 on identical threads, a snapshot of both threads; under ASan; non-trivial: a distance strictly between 0 and 1")
ASSUMPTIONS = ["two frames match when the type's cmp_distance is 0; that this relation is symmetric and what it means are P09's obligations",
               "threads have fewer than 2^29 frames",
               "the Jaccard contract counts a frame once at its last matching occurrence, as the definition of 'distinct'; swapping the threads gives the same value where matching is an equivalence (it is not for frames with unknown function names, which match nothing)",
               "C float arithmetic as IEEE rounding by an assumed monotone rounding function (exact below 2^24)"]
BOUNDED = ["distance_levenshtein (both variants): threads of up to 11 frames", "distance_jaro_winkler: threads of up to 11 frames"]
NOTE = ("The Jaccard metric is proved for all seven types and any lengths (bounded in [0,1], 0 for empty threads, one minus common by distinct), and so is the dispatch of sr_distance. "
        "A contract of the two-diagonal edit distance against the textbook recurrence is in specs/tdist.py, but the solvers do not discharge its loop invariants within the time a check has, so both Levenshtein metrics are bounded, as is Jaro-Winkler.")
