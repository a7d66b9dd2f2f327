"""Contracts of the location functions: lib/location.c and the location-aware scanners of lib/utils.c"""
from spec import *
from utils_scan import input_cell, string_arg, LIM, at, cell
import ghost
from engine import Skip

O = {"lines": True}
IMAX, IMIN = (1 << 31) - 1, -(1 << 31)


def counters(k, line, column, *others):
    for p in (line, column):
        k.requires(k.valid(p, 4), "counter pointer")
    k.requires(Or(separate(line, column), le(add(line.p, 4), column.p), le(add(column.p, 4), line.p)), "two different counters")
    for x in others:
        k.requires(And(separate(line, x), separate(column, x)), "counters are not inside the text")
    k.modifies("i32", line, 4)
    k.modifies("i32", column, 4)


def after(k, o, a, b, l0, c0):
    """(line, column) after the text [a,b) of object o, starting from (l0, c0)"""
    La, _ = k.eng.lines(k.st, Ptr(o, a))
    Lb, Tb = k.eng.lines(k.st, Ptr(o, b))
    return S(Z(l0) + Lb - La), S(z3.If(Tb > Z(a), Z(b) - Tb, Z(c0) + Z(b) - Z(a)))


def at_pos(k, line, column, pos, name):
    k.ensures(eq(k.ld("i32", line), pos[0]), name + ": line")
    k.ensures(eq(k.ld("i32", column), pos[1]), name + ": column")


@contract("sr_location_init", file="location.c")
def _(k, loc):
    k.requires(k.valid(loc, k.sizeof("sr_location")))
    k.modifies("i32", loc, 8)
    k.modifies("ptr", Ptr(loc.o, add(loc.p, 8)), 8)

    def post(res):
        k.ensures(eq(k.fld(loc, "sr_location", "line"), 1), "line 1")
        k.ensures(eq(k.fld(loc, "sr_location", "column"), 0), "column 0")
        k.ensures(eq(k.fld(loc, "sr_location", "message").o, 0), "no message")
    return post


def loc_fields(k, loc):
    k.requires(k.valid(loc, k.sizeof("sr_location")))
    return (Ptr(loc.o, add(loc.p, k.foff("sr_location", "line")[0])), Ptr(loc.o, add(loc.p, k.foff("sr_location", "column")[0])))


def eat(k, line, column, c):
    l0, c0 = k.ld("i32", line), k.ld("i32", column)
    k.requires(And(lt(l0, IMAX), lt(c0, IMAX)), "counters do not overflow")

    def post(res):
        nl = eq(c, 10)
        k.ensures(eq(k.ld("i32", line), ite(nl, add(l0, 1), l0)), "one line per newline")
        k.ensures(eq(k.ld("i32", column), ite(nl, 0, add(c0, 1))), "column counts from the last newline")
    return post


@contract("sr_location_eat_char_ext", file="location.c")
def _(k, line, column, c):
    counters(k, line, column)
    return eat(k, line, column, c)


@contract("sr_location_eat_char", file="location.c")
def _(k, loc, c):
    line, column = loc_fields(k, loc)
    k.modifies("i32", line, 4)
    k.modifies("i32", column, 4)
    return eat(k, line, column, c)


def addl(k, line, column, al, ac):
    l0, c0 = k.ld("i32", line), k.ld("i32", column)
    k.requires(And(le(1, al), le(add(l0, al), IMAX), le(IMIN, add(l0, al)), le(0, ac), le(add(c0, ac), IMAX)), "counters do not overflow")

    def post(res):
        # a chunk that ends on its line `al` (counted from 1), column `ac`
        k.ensures(eq(k.ld("i32", line), sub(add(l0, al), 1)), "adds the newlines of the chunk")
        k.ensures(eq(k.ld("i32", column), ite(lt(1, al), ac, add(c0, ac))), "column continues or restarts")
    return post


@contract("sr_location_add_ext", file="location.c")
def _(k, line, column, al, ac):
    counters(k, line, column)
    return addl(k, line, column, al, ac)


@contract("sr_location_add", file="location.c")
def _(k, loc, al, ac):
    line, column = loc_fields(k, loc)
    k.modifies("i32", line, 4)
    k.modifies("i32", column, 4)
    return addl(k, line, column, al, ac)


@contract("sr_strchr_location", file="utils.c", opts=O)
def _(k, s, c, line, column):
    N = string_arg(k, s)
    k.requires(And(le(-128, c), le(c, 127)), "a character")
    counters(k, line, column, s)

    def post(res):
        if k.case(ne(res.o, 0)):
            k.ensures(And(eq(res.o, s.o), le(s.p, res.p), le(res.p, N)), "result is in the text")
            k.ensures(eq(k.ch(res), c), "result is the character")
            q = res.p
        else:
            k.ensures(ne(c, 0), "not found")
            q = N
        k.ensures(forall_ch(k, s, s.p, q, lambda x: ne(x, c)), "first occurrence")
        at_pos(k, line, column, after(k, s.o, s.p, q, 1, 0), "position of the result")
    return post


@contract("sr_strspn_location", file="utils.c", opts=O)
def _(k, s, accept, line, column):
    N = string_arg(k, s)
    string_arg(k, accept)
    counters(k, line, column, s, accept)

    def post(res):
        k.ensures(And(le(0, res), le(add(s.p, res), N)), "in the text")
        k.ensures(forall_ch(k, s, s.p, add(s.p, res), lambda x: k.inset(accept, x)), "only accepted characters")
        k.ensures(Not(k.inset(accept, k.ch(at(s, res)))), "maximal")
        at_pos(k, line, column, after(k, s.o, s.p, add(s.p, res), 1, 0), "position of the end")
    return post


@contract("sr_skip_char_span_location", file="utils.c", opts=O)
def _(k, inp, chars, line, column):
    s, N = input_cell(k, inp)
    string_arg(k, chars, inp)
    counters(k, line, column, s, chars, inp)
    k.modifies("ptr", inp, 8)

    def post(res):
        s2 = k.ld("ptr", inp)
        k.ensures(eq(s2, at(s, res)), "advances by the result")
        k.ensures(And(le(0, res), le(s2.p, N)), "in the text")
        k.ensures(forall_ch(k, s, s.p, add(s.p, res), lambda x: k.inset(chars, x)), "only accepted characters")
        k.ensures(Not(k.inset(chars, k.ch(at(s, res)))), "maximal")
        at_pos(k, line, column, after(k, s.o, s.p, add(s.p, res), 1, 0), "position of the end")
    return post


@contract("sr_strstr_location", file="utils.c", opts=O)
def _(k, hay, needle, line, column):
    N = string_arg(k, hay)
    M = string_arg(k, needle)
    counters(k, line, column, hay, needle)

    def post(res):
        if k.case(ne(res.o, 0)):
            k.ensures(And(eq(res.o, hay.o), le(hay.p, res.p), le(res.p, N)), "result is in the text")
            at_pos(k, line, column, after(k, hay.o, hay.p, res.p, 1, 0), "position of the result")
    return post


@contract("sr_skip_to_next_line_location", file="utils.c", opts=O)
def _(k, inp, line, column):
    s, N = input_cell(k, inp)
    counters(k, line, column, s, inp)
    l0, c0 = k.ld("i32", line), k.ld("i32", column)
    k.requires(And(lt(l0, IMAX), le(add(c0, sub(N, s.p)), IMAX), le(0, c0)), "counters do not overflow")
    k.modifies("ptr", inp, 8)

    def post(res):
        s2 = k.ld("ptr", inp)
        e = ite(res, sub(s2.p, 1), s2.p)
        b = k.eng.skip(k.st, k.st.mem["i8"], s.o)
        if isinstance(b, Base):
            k.st.fact(ghost.no_newline(b.id, lambda j: Z(k.chq(Ptr(s.o, 0), j)), s.o, s.p, e))   # proved lemma
        k.ensures(And(eq(s2.o, s.o), le(s.p, e), le(s2.p, N)), "stays in the text")
        k.ensures(forall_ch(k, s, s.p, e, lambda x: ne(x, 10)), "no newline is passed except the last character")
        k.ensures(eq(k.ch(Ptr(s.o, e)), ite(res, 10, 0)), "stops after the newline, or at the end")
        at_pos(k, line, column, after(k, s.o, s.p, s2.p, l0, c0), "position of the new input")
    return post


@loops("sr_strchr_location", "sr_strspn_location", "sr_strstr_location", "sr_skip_to_next_line_location", "sr_skip_char_span_location")
def _(eng, L):
    its = items(eng, L)
    k = eng.k_main

    def lines(lv, p):
        return eng.lines(lv.s, p)
    for n, cls, cur, old in its:
        if cls != "ptr":
            continue
        for m, cls2, cur2, old2 in its:
            if cls2 != "i32":
                continue

            def fl(lv, cur=cur, old=old, cur2=cur2, old2=old2):
                p, p0 = cur(lv), old(lv)
                if is_c(p0.o) and p0.o <= 0:
                    raise Skip()
                return And(eq(p.o, p0.o), eq(cur2(lv), S(Z(old2(lv)) + lines(lv, Ptr(p0.o, p.p))[0] - lines(lv, p0)[0])))

            def fc(lv, cur=cur, old=old, cur2=cur2, old2=old2):
                p, p0 = cur(lv), old(lv)
                if is_c(p0.o) and p0.o <= 0:
                    raise Skip()
                T = lines(lv, Ptr(p0.o, p.p))[1]
                return And(eq(p.o, p0.o), eq(cur2(lv), S(z3.If(T > Z(p0.p), Z(p.p) - T, Z(old2(lv)) + Z(p.p) - Z(p0.p)))))
            yield "%s is the line of %s" % (m, n), fl
            yield "%s is the column of %s" % (m, n), fc
        if eng.fnname == "sr_strchr_location":
            c = k.vals[1]
            yield "%s:first" % n, lambda lv, cur=cur, old=old: forall_ch(k, old(lv), old(lv).p, cur(lv).p, lambda x: ne(x, c))
        if eng.fnname in ("sr_strspn_location",):
            acc = k.vals[1]
            yield "%s:span" % n, lambda lv, cur=cur, old=old: forall_ch(k, old(lv), old(lv).p, cur(lv).p, lambda x: k.inset(acc, x))
