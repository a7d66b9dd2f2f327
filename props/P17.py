from check import Job
import osrel
FILES = ["utils.c", "operating_system.c"]
FUNCS = ["unescape_osinfo_value", "sr_parse_os_release", "anonymize_path", "os_release_callback", "sr_operating_system_parse_etc_os_release", "sr_operating_system_parse_etc_system_release"]
HARNESS = "p17.c"
SECONDS = 8
RULE = ("random os-release texts (up to 400 lines; quotes, escapes, comments, malformed and unfinished lines, repeated keys) against a line-by-line decoder, and the operating system fields against a fold over its output; "
        "random paths around /home and system-release lines against independent readings; under ASan; non-trivial: at least one entry, a path that changes, a line that is accepted")
ASSUMPTIONS = ["the caller's callback takes over key and value and does not change the text",
               "texts are shorter than 2^30 bytes",
               "the content of an unquoted value is a function of the original (every character of it is proved to be one)",
               "strncasecmp and tolower outside ASCII are functions of the locale, left uninterpreted",
               "entries, line ends and '=' positions are described by functions whose defining equations are taken as axioms (each has exactly one solution)"]
BOUNDED = []
NOTE = ("All six functions are proved for texts of any length: unquoting in place (every kept character at its position), one callback per KEY=VALUE line in order with exactly that line's key and unquoted value, "
        "the fold of the entries into name, version, CPE, variant and the rawhide marker, the system-release line, and anonymized paths character by character.")


def jobs():
    return [Job(f) for f in FUNCS]
