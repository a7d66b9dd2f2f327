from check import Job
import dist
FILES = ["distance.c"]
FUNCS = ["get_distance_position_mn", "sr_distances_new", "sr_distances_dup", "sr_distances_free", "sr_distances_get_distance", "sr_distances_set_distance", "sr_threads_compare",
         "sr_distances_part_new", "sr_distances_part_compute", "sr_distances_part_merge", "sr_distances_part_free"]
LEMMAS = ["pairs"]


def jobs():
    return [Job(f) for f in FUNCS]


HARNESS = "p13.c"
SECONDS = 10
RULE = "random matrices (n up to 41) written in both orders and compared with a table, every kind of split compared with a walk over all pairs, parts computed in any order and merged against the direct comparison and against the two-thread comparison, inconsistent parts refused; under ASan; non-trivial: more than one row or part"
ASSUMPTIONS = ["matrices have at most 46340 rows and columns (so that n*n fits an int, as the code assumes)",
               "normalize_and_compare is a deterministic function of both threads and the metric and leaves them unchanged (assumed contract; its value is P12)",
               "thread_list_checksum has no side effects (assumed contract)",
               "sr_distances_part_create (the split) is checked by the bounded harness only: matrices up to 40 by 41, any number of parts",
               "sr_distances_part_merge is proved for parts of one split in order; other orders and the refusal of inconsistent parts are checked by the bounded harness"]
NOTE = ("Positions, element access, creation, copying, comparison, computing and merging parts are under contract for matrices of any size that the code's int arithmetic admits: "
        "each pair has its own cell (the closed form equals the row-major number, lemmas 'pairs' by induction), set changes exactly that cell, compare stores every pair, "
        "a part computes exactly its pairs and merge puts every value of every part where get reads it. The split itself is bounded.")
