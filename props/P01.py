from check import Job
import utils_scan

FILES = ["utils.c"]
FUNCS = ["sr_skip_char", "sr_skip_char_limited", "sr_parse_char_limited", "sr_skip_char_sequence", "sr_skip_char_span",
         "sr_skip_char_cspan", "sr_parse_char_span", "sr_parse_char_cspan", "sr_skip_string", "sr_parse_string",
         "sr_parse_digit", "sr_skip_uint", "sr_skip_hexadecimal_uint", "sr_skip_hexadecimal_0xuint", "sr_parse_uint32",
         "sr_parse_uint64", "sr_parse_hexadecimal_uint64", "sr_parse_hexadecimal_0xuint64", "sr_skip_whitespace",
         "sr_skip_non_whitespace"]
HARNESS = "p01.c"
SECONDS = 10
RULE = "random texts over a digit/hex/space-heavy alphabet, each helper compared with a reference scanner; non-trivial: something matched"


def jobs():
    return [Job(f) for f in FUNCS]


NOTE = ("All 20 scanning helpers carry full functional contracts; every obligation (functional, memory safety, overflow, frame, loop "
        "invariants) is discharged unboundedly from the current source. Trusted: strspn/strcspn/strchr/strtoul/strtoull, GLib "
        "allocation, the VC generator, clang's IR, the solvers. A bounded replay harness runs the real code against a reference scanner.")
