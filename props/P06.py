from check import Job
import json_
FILES = ["json_utils.c", "utils.c"]
FUNCS = ["sr_json_escape", "sr_json_append_escaped", "sr_indent_except_first_line", "sr_indent"]
LEMMAS = ["pos"]
HARNESS = "p06.c"
SECONDS = 8
RULE = ("random byte strings of up to 600 bytes, dense in quotes, backslashes, control characters and newlines, against a strict RFC 8259 decoder and json-c's reader, with a prefix already in the buffer; "
        "indentation by -2 to 70 spaces against a line-by-line oracle; under ASan; non-trivial: something had to be escaped")
ASSUMPTIONS = ["GString is modelled as a text that only grows in a buffer of unlimited size (growing never moves it)",
               "texts are shorter than 2^28 bytes, indentation below 2^20",
               "the encoding table in specs/json_.py (which bytes are written for which character) decodes to the original character: checked by the harness for every byte value, by reading for the proof",
               "bytes that are not UTF-8 are passed through unchanged, as the library's own JSON reader accepts them"]
BOUNDED = []
NOTE = ("All four functions are proved for texts of any length: the position of every character's encoding in the output, its bytes, the length, the terminating NUL, and that nothing else is written. "
        "The proofs use a position function defined by recursion over the text, with its monotonicity proved by induction.")


def jobs():
    return [Job(f) for f in FUNCS]
