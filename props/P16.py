from check import Job
import rpmlist, lst, cmp
FILES = ["rpm.c", "utils.c"]
FUNCS = ["sr_rpm_package_parse_nvr", "sr_rpm_package_parse_nevra", "package_merge", "cmp_nevra_qsort_wrapper", "sr_rpm_package_sort", "sr_rpm_package_append", "sr_rpm_package_count",
         "sr_rpm_package_cmp_nvr", "sr_rpm_package_cmp_nevra"]


def jobs():
    return [Job(f) for f in FUNCS]


HARNESS = "p16.c"
SECONDS = 8
RULE = "random package lists (up to 40 packages, missing fields, repeated packages) appended, counted, sorted and made unique against an independent model; random name-version-release and nevra texts against an independent splitter with poisoned outputs; under ASan; non-trivial: more than one package or a text that splits"
ASSUMPTIONS = ["qsort permutes the array into the order of its comparator (trusted contract; the comparator itself is proved)",
               "strtoul is an uninterpreted function of the text in the proof of parse_nevra; the harness compares it with a reading of the C standard",
               "sr_rpm_package_uniq (the loop around package_merge) is checked by the bounded harness only; one entry per package is claimed for sorted lists, as only neighbours are compared",
               "merging entries does not carry over their consistency lists (none are produced by the code paths that use it)"]
BOUNDED = ["sr_rpm_package_uniq: lists of at most 40 packages"]
NOTE = ("Splitting nvr/nevra texts is proved for all strings (exactly the parts between the last separators, or failure with untouched outputs), as are append, count, "
        "the comparators, the merge of two entries and sort (a chained permutation of the same objects, given qsort's contract). Removing duplicates is bounded.")
