from check import Job
import utils_scan, loc
FILES = ["utils.c", "location.c"]
FUNCS = ["sr_location_init", "sr_location_eat_char_ext", "sr_location_eat_char", "sr_location_add_ext", "sr_location_add",
         "sr_strchr_location", "sr_strspn_location", "sr_skip_char_span_location", "sr_strstr_location", "sr_skip_to_next_line_location"]
LEMMAS = ["lines"]
HARNESS = "p02.c"
SECONDS = 10


def jobs():
    return [Job(f) for f in FUNCS]


RULE = "random texts rich in newlines; every helper compared with counting newlines/columns; non-trivial: the needle was found past the start"
NOTE = ("All location functions and location-aware scanners carry full contracts over ghost line counters of the text (their lemmas proved by "
        "induction on every run); every obligation is discharged for all texts, positions, sets and needles. Counters are assumed not to overflow int "
        "(texts shorter than 2^31). Trusted: strchr/strlen/strncmp/strcspn models, VC generator, clang IR, solvers. Bounded replay harness as concretiser. "
        "Not proved (bounded only): that sr_strstr_location finds the first occurrence.")
