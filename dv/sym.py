"""Deductive verifier for satyr: symbolic VC generation over clang's LLVM IR, discharged by z3 (cvc5 as a second back end).

A function under contract is executed symbolically from a state that satisfies its precondition; loops are cut by
inductive invariants; calls to functions under contract are replaced by the contract; every assertion met on the way
(memory validity, signed overflow, callee preconditions, frame, postconditions, invariant initialisation and
preservation) is an obligation "path facts => condition" that must be unsatisfiable when negated.
"""
import time, os, sys, itertools
import z3
from collections import namedtuple
import irparse
from irparse import PTR

Ptr = namedtuple("Ptr", "o p")
PtrInt = namedtuple("PtrInt", "o p")   # ptrtoint of a pointer
NULL = Ptr(0, 0)
INF = 1 << 62


class Unsupported(Exception):
    pass


class PathLimit(Exception):
    pass


# --------------------------------------------------------------------------- term helpers
def is_c(x):
    return isinstance(x, (int, bool))


def S(e):
    """simplify; fold to python constants"""
    if is_c(e):
        return e
    e = z3.simplify(e, som=False)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def Z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def add(a, b):
    if is_c(a) and is_c(b):
        return a + b
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    return S(a + b)


def sub(a, b):
    if is_c(a) and is_c(b):
        return a - b
    if is_c(b) and b == 0:
        return a
    return S(a - b)


def mul(a, b):
    if is_c(a) and is_c(b):
        return a * b
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return S(a * b)


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def Not(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def eq(a, b):
    if isinstance(a, (Ptr, PtrInt)):
        return And(eq(a.o, b.o), eq(a.p, b.p))
    if is_c(a) and is_c(b):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        return Iff(a, b)
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return True
    return S(Z(a) == Z(b))


def ne(a, b):
    return S(Not(eq(a, b)))


def lt(a, b):
    if is_c(a) and is_c(b):
        return a < b
    return S(Z(a) < Z(b))


def le(a, b):
    if is_c(a) and is_c(b):
        return a <= b
    return S(Z(a) <= Z(b))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, Ptr):
        return Ptr(ite(c, a.o, b.o), ite(c, a.p, b.p))
    if isinstance(a, PtrInt) or isinstance(b, PtrInt):
        raise Unsupported("ite on PtrInt")
    if is_c(a) and is_c(b) and a == b and type(a) == type(b):
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
        return a
    return S(z3.If(c, Z(a), Z(b)))


def u(x, w):
    """unsigned value of a signed-canonical w-bit value"""
    if is_c(x):
        return x % (1 << w)
    return S(z3.If(x < 0, x + (1 << w), x))


def wrap_c(x, w):
    x %= 1 << w
    return x - (1 << w) if x >= 1 << (w - 1) else x


def rng(x, w):
    return And(le(-(1 << (w - 1)), x), le(x, (1 << (w - 1)) - 1))


class Counter:
    """numbers of fresh names; a replayed contract gets the same names again up to the new decision"""

    def __init__(self):
        self.v = self.high = 0

    def __next__(self):
        self.v += 1
        self.high = max(self.high, self.v)
        return self.v


_ctr = Counter()


def fresh_int(name):
    return z3.Int("%s!%d" % (name, next(_ctr)))


def fresh_bool(name):
    return z3.Bool("%s!%d" % (name, next(_ctr)))


def fresh_real(name):
    return z3.Real("%s!%d" % (name, next(_ctr)))


def fresh_ptr(name):
    return Ptr(fresh_int(name + ".o"), fresh_int(name + ".p"))


I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
Size = z3.Function("Size", I, I)

CLS_W = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "f32": 4, "f64": 8}
CLASSES = list(CLS_W)


def cls_of(t):
    if t.k == "int":
        return {1: "i8", 8: "i8", 16: "i16", 32: "i32", 64: "i64"}[t.w]
    if t.k in ("ptr", "f32", "f64"):
        return t.k
    raise Unsupported("memory class of %r" % t)


# --------------------------------------------------------------------------- memory chains
class Base:
    def __init__(self, cls, wm):
        self.cls = cls
        n = next(_ctr)
        self.id = n
        self.wm = wm
        self.prev = None
        if cls == "ptr":
            self.fo = z3.Function("Mo!%d" % n, I, I, I)
            self.fp = z3.Function("Mp!%d" % n, I, I, I)
        elif cls in ("f32", "f64"):
            self.f = z3.Function("M%s!%d" % (cls, n), I, I, R)
        else:
            self.f = z3.Function("M%s!%d" % (cls, n), I, I, I)
        if cls == "i8":
            self.nul = z3.Function("NUL!%d" % n, I, I, I)
            self.rank = z3.Function("RANK!%d" % n, I, I, R)

    def get(self, o, p):
        o, p = Z(o), Z(p)
        if self.cls == "ptr":
            return Ptr(self.fo(o, p), self.fp(o, p))
        return self.f(o, p)


class Store:
    def __init__(self, prev, o, p, v):
        self.prev, self.o, self.p, self.v = prev, o, p, v


class Havoc:
    """inside cond(o,p) the content comes from `base` (a Base or a chain); outside it is unchanged.
    touches(o) -> formula: may the node change object o at all"""
    def __init__(self, prev, cond, base, touches):
        self.prev, self.cond, self.base, self.touches = prev, cond, base, touches


class Fill:
    def __init__(self, prev, o, lo, hi, v):
        self.prev, self.o, self.lo, self.hi, self.v = prev, o, lo, hi, v


class Copy:
    def __init__(self, prev, o, lo, hi, src, so, sp):
        self.prev, self.o, self.lo, self.hi, self.src, self.so, self.sp = prev, o, lo, hi, src, so, sp


class IteMem:
    def __init__(self, common, c, a, b):
        self.prev, self.c, self.a, self.b = common, c, a, b


# --------------------------------------------------------------------------- alive chain
class ABase:
    def __init__(self):
        self.f = z3.Function("Alive!%d" % next(_ctr), I, B)


class AAlloc:
    def __init__(self, prev, o):
        self.prev, self.o = prev, o


class AFree:
    def __init__(self, prev, cond):
        self.prev, self.cond = prev, cond


class AIte:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def alive(ch, o):
    if isinstance(ch, ABase):
        return ch.f(Z(o))
    if isinstance(ch, AAlloc):
        return Or(eq(o, ch.o), alive(ch.prev, o)) if not eq(o, ch.o) is True else True
    if isinstance(ch, AFree):
        return And(Not(ch.cond(o)), alive(ch.prev, o))
    return ite(ch.c, alive(ch.a, o), alive(ch.b, o))


# --------------------------------------------------------------------------- state
class Frame:
    __slots__ = ("fn", "regs", "loc", "blk", "idx", "prev", "ret", "loops", "uid", "esc", "va", "uc")

    def copy(self):
        f = Frame.__new__(Frame)
        f.uc = self.uc
        f.fn, f.blk, f.idx, f.prev, f.ret, f.uid, f.esc, f.va = (self.fn, self.blk, self.idx, self.prev, self.ret,
                                                                 self.uid, self.esc, self.va)
        f.regs = dict(self.regs)
        f.loc = dict(self.loc)
        f.loops = list(self.loops)
        return f


class State:
    __slots__ = ("frames", "mem", "al", "wm", "facts", "seen", "valid", "ghost", "trace", "sizes", "writes", "nloc")

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.al = self.al
        s.wm = self.wm
        s.facts = list(self.facts)
        s.seen = set(self.seen)
        s.valid = set(self.valid)
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        s.sizes = dict(self.sizes)
        s.writes = self.writes
        s.nloc = self.nloc
        return s

    def fact(self, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        self.facts.append(c)

    @property
    def top(self):
        return self.frames[-1]


class Ob:
    __slots__ = ("name", "fn", "line", "status", "time", "backend", "detail", "model")

    def __init__(self, name, fn, line, status, t, backend, detail="", model=None):
        self.name, self.fn, self.line, self.status, self.time, self.backend, self.detail, self.model = (
            name, fn, line, status, t, backend, detail, model)

    def __repr__(self):
        return "%s %s:%s [%s] %s" % (self.status, self.fn, self.line, self.name, self.detail)


# --------------------------------------------------------------------------- solver stack
PATIENCE = 1        # multiplies every solver time limit (second attempt at a failed proof)


class SolverStack:
    def __init__(self, timeout):
        self.timeout = timeout
        self.reset()
        self.time = 0.0
        self.queries = 0
        self.axioms = []

    def reset(self):
        self.s = z3.SimpleSolver()
        self.s.set("smt.mbqi", False)
        self.s.set("smt.random_seed", PATIENCE)
        self.s.set("timeout", self.timeout * PATIENCE)
        self.cur = []
        self.seg = []
        self.n = 0

    def sync(self, facts):
        self.n += 1
        if self.n > 4000:
            self.reset()
        cur = self.cur
        n = min(len(cur), len(facts))
        i = 0
        # segments are compared by identity
        while i < n and cur[i] is facts[i]:
            i += 1
        while self.seg and self.seg[-1] > i:
            self.s.pop()
            self.seg.pop()
            del cur[self.seg[-1] if self.seg else 0:]
        if len(cur) < len(facts):
            self.s.push()
            for f in facts[len(cur):]:
                self.s.add(f)
                cur.append(f)
            self.seg.append(len(cur))

    def check(self, facts, extra, timeout=None):
        t0 = time.time()
        self.sync(facts)
        if timeout:
            self.s.set("timeout", timeout * PATIENCE)
        self.s.push()
        for e in extra:
            self.s.add(Z(e))
        r = self.s.check()
        m = None
        if r == z3.sat:
            m = self.s.model()
        self.s.pop()
        if timeout:
            self.s.set("timeout", self.timeout * PATIENCE)
        self.time += time.time() - t0
        self.queries += 1
        return r, m


CTYPE_BITS = {  # glibc little endian masks -> predicate on C-locale character code
    256: lambda c: Or(And(le(65, c), le(c, 90))),                       # _ISupper
    512: lambda c: And(le(97, c), le(c, 122)),                          # _ISlower
    1024: lambda c: Or(And(le(65, c), le(c, 90)), And(le(97, c), le(c, 122))),   # _ISalpha
    2048: lambda c: And(le(48, c), le(c, 57)),                          # _ISdigit
    4096: lambda c: Or(And(le(48, c), le(c, 57)), And(le(65, c), le(c, 70)), And(le(97, c), le(c, 102))),  # _ISxdigit
    8192: lambda c: Or(And(le(9, c), le(c, 13)), eq(c, 32)),            # _ISspace
    16384: lambda c: And(le(32, c), le(c, 126)),                        # _ISprint
    32768: lambda c: And(le(33, c), le(c, 126)),                        # _ISgraph
    1: lambda c: Or(eq(c, 9), eq(c, 32)),                               # _ISblank
    2: lambda c: Or(And(le(0, c), le(c, 31)), eq(c, 127)),              # _IScntrl
    4: lambda c: And(le(33, c), le(c, 126), Not(Or(And(le(48, c), le(c, 57)), And(le(65, c), le(c, 90)),
                                                   And(le(97, c), le(c, 122))))),   # _ISpunct
    8: lambda c: Or(And(le(48, c), le(c, 57)), And(le(65, c), le(c, 90)), And(le(97, c), le(c, 122))),  # _ISalnum
}


class AHav:
    """alive after a loop / call: inside cond(o) it is unknown (base), elsewhere unchanged"""
    def __init__(self, prev, cond, base):
        self.prev, self.cond, self.base = prev, cond, base


_alive0 = alive


def alive(ch, o):
    if isinstance(ch, AHav):
        return ite(ch.cond(o), ch.base.f(Z(o)), alive(ch.prev, o))
    if isinstance(ch, ABase):
        return ch.f(Z(o))
    if isinstance(ch, AAlloc):
        e = eq(o, ch.o)
        return True if e is True else Or(e, alive(ch.prev, o))
    if isinstance(ch, AFree):
        return And(Not(ch.cond(o)), alive(ch.prev, o))
    return ite(ch.c, alive(ch.a, o), alive(ch.b, o))


# --------------------------------------------------------------------------- program
class Program:
    def __init__(self, files, irdir, repo=None):
        self.mods = {}
        self.ext = {}
        self.structs = {}
        for f in files:
            m = irparse.parse_module(irparse.compile_ir(f, irdir))
            m.src = f
            self.mods[m.name] = m
            for n, fn in m.fns.items():
                if not fn.internal:
                    self.ext[n] = fn
            for n, d in irparse.debug_structs(m).items():
                self.structs.setdefault(n, d)
        self.gext = {}
        for m in self.mods.values():
            for n, g in m.globals.items():
                if not g[2] and not g[4]:
                    self.gext[n] = (m, g)
        self.gids = {}
        self.gobj = {}
        self.fnids = {}
        self.stored = set()
        for m in self.mods.values():
            for fn in m.fns.values():
                for b in fn.blocks.values():
                    for ins in b:
                        if ins.op == "store" and ins.a[2][0] == "glob":
                            self.stored.add((m.name, ins.a[2][1]))
        self.loopcache = {}
        self.esccache = {}

    def find(self, name, mod=None):
        if mod is not None and name in mod.fns:
            return mod.fns[name]
        return self.ext.get(name)

    # ---- types
    def resolve(self, t, mod):
        while t.k == "named":
            t = mod.structs[t.name]
        return t

    def sizeof(self, t, mod):
        t = self.resolve(t, mod)
        if t.k == "int":
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}[t.w]
        if t.k in ("ptr", "f64"):
            return 8
        if t.k == "f32":
            return 4
        if t.k == "f80":
            return 16
        if t.k == "arr":
            return t.n * self.sizeof(t.el, mod)
        if t.k == "struct":
            off = 0
            for f in t.fields:
                a = 1 if t.n else self.alignof(f, mod)
                off = (off + a - 1) // a * a + self.sizeof(f, mod)
            a = 1 if t.n else max([self.alignof(f, mod) for f in t.fields] or [1])
            return (off + a - 1) // a * a
        if t.k == "opaque":
            return 0
        raise Unsupported("sizeof %r" % t)

    def alignof(self, t, mod):
        t = self.resolve(t, mod)
        if t.k == "arr":
            return self.alignof(t.el, mod)
        if t.k == "struct":
            return 1 if t.n else max([self.alignof(f, mod) for f in t.fields] or [1])
        return self.sizeof(t, mod)

    def fieldoff(self, t, i, mod):
        off = 0
        for k, f in enumerate(t.fields):
            a = 1 if t.n else self.alignof(f, mod)
            off = (off + a - 1) // a * a
            if k == i:
                return off
            off += self.sizeof(f, mod)
        raise Unsupported("field")

    # ---- globals
    def gid(self, name, mod):
        """id of a global variable or function"""
        fn = self.find(name, mod)
        if fn is not None or (name in mod.decls and name not in mod.globals):
            key = ("fn", fn.module.name if fn is not None and fn.internal else "", name)
            if key not in self.fnids:
                self.fnids[key] = -2000000 - len(self.fnids)
                self.gobj[self.fnids[key]] = ("fn", name, fn)
            return self.fnids[key]
        g = mod.globals.get(name)
        if g is None:
            if name in self.gext:
                m2, g = self.gext[name]
                return self.gid(name, m2)
            key = ("decl", name)
            if key not in self.fnids:
                self.fnids[key] = -2000000 - len(self.fnids)
                self.gobj[self.fnids[key]] = ("fn", name, None)
            return self.fnids[key]
        if g[2] and name in self.gext:
            m2, g2 = self.gext[name]
            if m2 is not mod:
                return self.gid(name, m2)
        key = (mod.name, name)
        if key not in self.gids:
            i = -1000000 - len(self.gids)
            self.gids[key] = i
            const = (g[3] or (g[4] and key not in self.stored) or (key not in self.stored and g[1] is not None and
                                                                   g[1][0] == "agg")) and g[1] is not None
            self.gobj[i] = ("var", name, mod, g, const, self.sizeof(g[0], mod) if not g[2] else None)
        return self.gids[key]

    def gflat(self, gid):
        """{off: (cls, val)} of a constant global's initialiser"""
        e = self.gobj[gid]
        if len(e) == 7:
            return e[6]
        _, name, mod, g, const, size = e
        out = {}

        def rec(t, v, off):
            t = self.resolve(t, mod)
            if v[0] in ("zero", "undef"):
                if t.k == "arr":
                    n = self.sizeof(t.el, mod)
                    for i in range(t.n):
                        rec(t.el, v, off + i * n)
                elif t.k == "struct":
                    for i, f in enumerate(t.fields):
                        rec(f, v, off + self.fieldoff(t, i, mod))
                elif t.k == "ptr":
                    out[off] = ("ptr", NULL)
                else:
                    out[off] = (cls_of(t), 0)
            elif v[0] == "bytes":
                for i, b in enumerate(v[1]):
                    out[off + i] = ("i8", wrap_c(b, 8))
            elif v[0] == "agg":
                if t.k == "arr":
                    n = self.sizeof(t.el, mod)
                    for i, (tt, vv) in enumerate(v[1]):
                        rec(tt, vv, off + i * n)
                else:
                    for i, (tt, vv) in enumerate(v[1]):
                        rec(tt, vv, off + self.fieldoff(t, i, mod))
            elif v[0] == "int":
                out[off] = (cls_of(t), wrap_c(v[1], t.w) if t.w > 1 else v[1])
            elif v[0] == "null":
                out[off] = ("ptr", NULL)
            elif v[0] == "glob":
                out[off] = ("ptr", Ptr(self.gid(v[1], mod), 0))
            elif v[0] == "gep":
                b = v[2][0][1]
                if b[0] == "glob":
                    out[off] = ("ptr", Ptr(self.gid(b[1], mod), self.gepoff(v, mod)))
            elif v[0] == "float":
                from fractions import Fraction
                out[off] = (cls_of(t), z3.RealVal(Fraction(v[1])))
        rec(g[0], g[1], 0)
        self.gobj[gid] = (*e, out)
        return out

    def gepoff(self, v, mod):
        base = self.resolve(v[1], mod)
        off = v[2][1][1][1] * self.sizeof(base, mod)
        t = base
        for tt, vv in v[2][2:]:
            i = vv[1]
            if t.k == "arr":
                off += i * self.sizeof(t.el, mod)
                t = self.resolve(t.el, mod)
            else:
                off += self.fieldoff(t, i, mod)
                t = self.resolve(t.fields[i], mod)
        return off

    def literal(self, gid):
        """bytes of a constant C string global (without NUL), or None"""
        e = self.gobj.get(gid)
        if not e or e[0] != "var" or not e[4]:
            return None
        g = e[3]
        if g[1] and g[1][0] == "bytes" and g[1][1].endswith(b"\0"):
            return g[1][1][:-1]
        if g[1] and g[1][0] == "zero" and g[0].k == "arr" and g[0].n >= 1:
            return b""
        return None

    # ---- loops
    def loops(self, fn):
        if id(fn) in self.loopcache:
            return self.loopcache[id(fn)]
        succ = {}
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op == "br":
                succ[b] = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == "switch":
                succ[b] = [t.a[2]] + [c[1] for c in t.a[3]]
            else:
                succ[b] = []
        # dominators
        reach = []
        seen = set()
        st = [fn.entry]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            reach.append(x)
            st.extend(succ[x])
        pred = {b: [] for b in seen}
        for b in seen:
            for s in succ[b]:
                pred[s].append(b)
        dom = {b: set(seen) for b in seen}
        dom[fn.entry] = {fn.entry}
        ch = True
        order = [b for b in fn.order if b in seen]
        while ch:
            ch = False
            for b in order:
                if b == fn.entry:
                    continue
                n = set.intersection(*[dom[p] for p in pred[b]]) | {b} if pred[b] else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        res = {}
        for b in seen:
            for s in succ[b]:
                if s in dom[b]:
                    body = res.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pred[x])
        self.loopcache[id(fn)] = res
        return res

    def escaping(self, fn):
        if id(fn) in self.esccache:
            return self.esccache[id(fn)]
        al = {}
        for b in fn.blocks.values():
            for ins in b:
                if ins.op == "alloca":
                    t = self.resolve(ins.a[0], fn.module)
                    al[ins.dst] = not (t.k in ("int", "ptr", "f32", "f64") and ins.a[1] is None)

        def use(v):
            if isinstance(v, tuple) and v and v[0] == "reg" and v[1] in al:
                al[v[1]] = True
        for b in fn.blocks.values():
            for ins in b:
                a = ins.a
                if ins.op == "load":
                    continue
                if ins.op == "store":
                    use(a[1])
                    continue
                if ins.op == "alloca":
                    continue

                def walk(x):
                    if isinstance(x, tuple):
                        if len(x) == 2 and x[0] == "reg":
                            use(x)
                        else:
                            for y in x:
                                walk(y)
                    elif isinstance(x, list):
                        for y in x:
                            walk(y)
                walk(a)
        self.esccache[id(fn)] = al
        return al


class LoopCtx:
    def __init__(self, fn, header, blocks):
        self.fn, self.header, self.blocks = fn, header, blocks
        self.mode = None      # 'dry' | 'houdini' | 'final'
        self.cands = []
        self.writes = []
        self.frees = []
        self.alloc = False
        self.back = []
        self.entry = None
        self.mark = 0
        self.ghostw = set()


class Region:
    """modifies clause item"""
    def __init__(self, cls, o, lo, hi, cond=None):
        self.cls, self.o, self.lo, self.hi, self.cond = cls, o, lo, hi, cond

    def has(self, cls, o, p):
        if self.cls != "*" and self.cls != cls:
            return False
        if self.cond is not None:
            return self.cond(o, p)
        c = eq(o, self.o)
        if self.lo is not None:
            c = And(c, le(self.lo, p), lt(p, self.hi))
        return c

    def touches(self, o):
        if self.cond is not None:
            return self.cond(o, None)
        return eq(o, self.o)
