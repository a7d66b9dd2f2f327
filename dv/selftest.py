"""./check --selftest: tool sanity before any check: solvers answer, the C sources compile to IR, and the VC generator gives the known
verdicts on dv/selftest/t.c (a wrong verdict in either direction is an error)."""
import sys, os, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/dv", V + "/specs"]
sys.setrecursionlimit(20000)
from spec import *
import trusted
from engine import verify


def ab(k, x):
    return lambda r: k.ensures(eq(r, ite(lt(x, 0), ite(eq(x, -2147483648), 2147483647, sub(0, x)), x)), "abs")


def ln(k, s):
    k.requires(k.valid_str(s))
    N = k.nul(s)
    k.requires(lt(sub(N, s.p), 1 << 31))
    return lambda r: k.ensures(eq(r, sub(N, s.p)), "length")


def stn(k, a):
    k.requires(k.valid(a, 16))
    k.modifies("i32", a, 4)
    return lambda r: k.ensures(eq(k.ld("i32", a), 3), "stored")


def rd(k, a):
    k.requires(k.valid(a, 16))
    return lambda r: None


def seven(k, *a):
    k.may_alloc()
    return lambda r: k.ensures(eq(r, 7), "seven")


CASES = [("good_abs", ab, True), ("bad_abs", ab, False), ("good_len", ln, True), ("bad_len", ln, False), ("bad_len2", ln, False),
         ("good_store", stn, True), ("bad_frame", stn, False), ("bad_null", rd, False), ("bad_uaf", seven, False),
         ("good_heap", seven, True), ("bad_uninit", seven, False), ("bad_off", seven, False)]


def main():
    d = tempfile.mkdtemp(prefix="satyr-selftest-")
    try:
        prog = Program([V + "/dv/selftest/t.c"], d)
        rc = 0
        for fn, sp, want in CASES:
            r = verify(prog, {}, trusted.T, fn, {}, (), sp)
            got = r["status"] == "ok"
            if got != want:
                print("selftest: %s: status %s %s, expected %s" % (fn, r["status"], r["error"], "ok" if want else "not ok"))
                for o in r["obs"]:
                    if o.status != "ok":
                        print("   ", o.name, o.line, o.status)
                rc = 1
        print("selftest: %d functions %s" % (len(CASES), "as expected" if not rc else "WRONG"))
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
