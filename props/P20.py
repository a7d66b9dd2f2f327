from check import Job
import conv
FILES = ["utils.c", "report.c"]
FUNCS = ["sr_struniq", "sr_bin2hex", "sr_report_type_to_string", "sr_report_type_from_string"]
LEMMAS = ["runs", "hex"]
HARNESS = "p20.c"
SECONDS = 8
RULE = "random string arrays with runs, byte strings, type codes and near-miss type names; non-trivial: something was removed"
ASSUMPTIONS = ["the static table report_types is never modified"]
NOTE = ("Full functional contracts for all four functions, discharged unboundedly: struniq over ghost run indices (monotonicity lemma proved by induction), "
        "bin2hex for every byte and length below 2^30, the two type-name functions for every code and string (8-entry table unrolled completely). "
        "Trusted: strcmp/g_strcmp0/g_strdup models, VC generator, clang IR, solvers. Bounded replay harness as concretiser.")


def jobs():
    return [Job(f) for f in FUNCS]
