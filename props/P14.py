from check import Job
import clust
FILES = ["cluster.c"]
FUNCS = ["cluster_add_index", "cluster_merge", "cluster_reverse", "sr_dendrogram_new", "sr_cluster_new", "sr_dendrogram_cut"]
HARNESS = "p14.c"
SECONDS = 12
RULE = ("random distance matrices of up to 61 objects (full and partial, with ties, constant, distinct), clustered and cut at random levels and minimum sizes: every object once, levels within the distances, "
        "the closest pair joined first, the same partition as an independent average-linkage clustering at every level (full matrices without near-ties); random dendrograms of up to 300 objects cut against an independent splitter; under ASan")
ASSUMPTIONS = ["merge levels and the cut level are not NaN", "fewer than 2^28 objects",
               "group starts, counts and ends are described by functions whose defining equations are taken as axioms"]
BOUNDED = ["sr_distances_cluster_objects: up to 61 objects"]
NOTE = ("Cutting is proved for dendrograms of any size: the list consists of exactly the maximal runs of neighbours joined at or below the level that are large enough, in order (last first), with their objects. "
        "The growing index lists (append, merge, reverse) are proved too. The clustering loop itself (arrays of lists in a variable-length array) is bounded.")


def jobs():
    return [Job(f) for f in FUNCS]
