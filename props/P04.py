from check import Job
import spec, gram, utils_scan, koops
FILES = ["utils.c", "koops_frame.c", "koops_stacktrace.c"]
FUNCS = ["sr_koops_skip_timestamp", "sr_koops_parse_address", "sr_koops_parse_module_name", "sr_koops_parse_function",
         "koops_frame_parse_ppc", "koops_frame_parse_arm_reduced", "sr_koops_frame_parse", "parse_IP", "parse_alt_stack_end", "parse_alt_stack_start", "module_list_continues"]
HARNESS = "p04.c"
SECONDS = 8


def jobs():
    c = dict(spec.CONTRACTS, **gram.LIGHT)
    return [Job(f, name=f + "[light]", spec=x) for f, x in sorted(gram.LIGHT.items())] + [Job(f, contracts=c) for f in FUNCS if f != "sr_koops_frame_parse"] \
        + [Job("sr_koops_frame_parse", name="sr_koops_frame_parse[%s]" % x, contracts=c, spec=koops.part(x), cost=20 if "from" in x else 9) for x in koops.PARTS]


RULE = ("whole oopses and single lines printed from random descriptions (every combination of the optional parts, letter case, time stamps, module lists broken over lines, alternate stacks, taint flags in both notations, instruction pointer lines of three architectures), "
        "parsed and compared field by field with the description; random and mutated texts in exactly sized buffers for memory safety, termination and the input pointer; under ASan; non-trivial: at least one frame or module")
ASSUMPTIONS = ["texts are NUL-terminated and shorter than 2^31 characters",
               "the forms of the lines are the rules in specs/koops.py; they were written from the comments and the printed kernel formats and are compared with the code on every run",
               "character classes are those of the C locale; numbers as proved for the scanners (P01); the C library scanners (strspn, strtoul, ...) and GLib allocation are modelled",
               "memory allocation succeeds"]
BOUNDED = ["sr_koops_stacktrace_parse (which line goes where), sr_koops_stacktrace_parse_modules and parse_taint_flags: generated oopses of up to 8 frames and 6 modules, texts of up to about 3000 characters",
           "sr_koops_skip_timestamp is proved; its effect inside the whole-oops loop is covered by the bounded part"]
NOTE = ("Every scanner of a single line (time stamp, address, module, function, PowerPC, reduced ARM and general stack lines, instruction pointer, alternate stack marks, module list continuation) is proved to accept exactly the documented form, to deliver exactly the parts "
        "that the text states, to move the input exactly behind them or not at all, and never to read outside the text - for all texts. The loop over the lines of an oops is bounded.")
