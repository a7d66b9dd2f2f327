"""Ghost view of singly linked lists.  A list is indexed by an owner (the object id of its container, or any ghost number):
Node(owner,i) is the object of the i-th element, Len(owner) their number, Idx(owner,o) the position of element o."""
import z3
from sym import *
from engine import fcls

LIM = 1 << 30
_f = {}


def fun(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _f:
        _f[k] = z3.Function(name, *sorts)
    return _f[k]


def uname(p):
    return z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED


def pats(*ts):
    if all(uname(t) for t in ts):
        return {"patterns": [ts[0] if len(ts) == 1 else z3.MultiPattern(*ts)]}
    return {}


def slot(o):
    return fun("Slot", I, I)(Z(o))


class GList:
    def __init__(self, k, sname, owner, tag=None, nextf="next", strs=()):
        self.k, self.sname, self.owner, self.nextf = k, sname, Z(owner), nextf
        tag = self.tag = tag or sname
        self.node = fun("Node." + tag, I, I, I)
        self.idx = fun("Idx." + tag, I, I, I)
        self.length = fun("Len." + tag, I, I)
        self.n = self.length(self.owner)
        self.strs = strs
        self.okf = {}
        k.lists.append(self)

    def tag0(self):
        return "%s list #%d" % (self.sname, self.k.lists.index(self) + 1)

    def at(self, i):
        return self.node(self.owner, Z(i))

    def ptr(self, i):
        return Ptr(self.at(i), 0)

    def pos(self, o):
        return self.idx(self.owner, Z(o))

    def or_null(self, i):
        """pointer to the i-th element, NULL behind the end"""
        return Ptr(z3.If(z3.And(0 <= Z(i), Z(i) < self.n), self.at(i), 0), 0)

    def is_at(self, p, i):
        """p points to the i-th element (NULL behind the end)"""
        return z3.And(Z(p.p) == 0, z3.If(z3.And(0 <= Z(i), Z(i) < self.n), Z(p.o) == self.at(i), Z(p.o) == 0))

    def fread(self, field, o, st=None):
        """field of the element in object o, o possibly bound"""
        k = self.k
        st = st or k.st
        off, cls = k.foff(self.sname, field)
        return k.eng._read(st, st.mem[cls], cls, o, off, False)

    def own(self, o):
        """index of the element that owns object o (the element itself or one of its strings); -1: not part of the list"""
        return fun("Own." + self.tag, I, I, I)(self.owner, Z(o))

    def own_of(self, owner, o):
        return fun("Own." + self.tag, I, I, I)(Z(owner), Z(o))

    def owned(self, lo, hi):
        """set of objects owned by the elements lo <= i < hi"""
        return lambda o: z3.And(Z(o) > 0, Z(lo) <= self.own(o), self.own(o) < Z(hi))

    def require(self, bound=(), guard=True, head=None, own=False, type=None, container=None, lo=0):
        """the list is well-formed: distinct live nodes, chained by `next`, string fields NULL or valid.
        bound/guard: the owner mentions these bound variables (a list in every element of another list)"""
        k, st = self.k, self.k.st
        i = z3.Int("i!l" if not bound else "j!l")
        n, nd = self.n, self.at(i)
        inr = z3.And(Z(guard), Z(lo) <= i, i < n)
        bs = list(bound)
        fa = lambda vs, body, *ts: z3.ForAll(vs, body, **pats(*ts)) if vs else body
        size = k.sizeof(self.sname)
        k.requires(fa(bs, z3.Implies(Z(guard), z3.And(n >= 0, n < LIM)), *([n] if bs else [])), "list length")
        k.requires(fa(bs + [i], z3.Implies(inr, z3.And(nd > 0, nd <= Z(st.wm), Z(alive(st.al, nd)), Size(nd) >= size, self.pos(nd) == i)),
                      nd), "list elements are distinct live objects")
        nx = self.fread(self.nextf, nd)
        k.requires(fa(bs + [i], z3.Implies(inr, self.is_at(nx, i + 1)), Z(nx.o)), "list elements are chained")
        if own:
            k.requires(fa(bs + [i], z3.Implies(inr, z3.And(self.own(nd) == i, slot(nd) == 0)), nd), "ownership of the elements")
            if container is not None:
                k.requires(fa(bs, z3.Implies(Z(guard), self.own(container) == -1), *([self.own(container)] if bs else [])), "the container is not an element")
        if type is not None:
            tf = self.fread("type", nd)
            k.requires(fa(bs + [i], z3.Implies(inr, Z(tf) == type), Z(tf)), "type tag of the elements")
        for m, f in enumerate(self.strs):
            p = self.fread(f, nd)
            if own:
                k.requires(fa(bs + [i], z3.Implies(z3.And(inr, Z(p.o) != 0), z3.And(Z(p.p) == 0, self.own(p.o) == i, slot(p.o) == m + 1)), Z(p.o)),
                           "the elements own their strings")
            k.requires(fa(bs + [i], z3.Implies(inr, self.okf.get(f, lambda p, nd: self.str_ok(p))(p, nd)), Z(p.o)), "string field %s of the elements" % f)
        if own:
            o = z3.Int("o!own")
            w = self.own(o)
            nd = self.at(w)
            k.requires(z3.ForAll(bs + [o], z3.Implies(z3.And(Z(guard), Z(lo) <= w, w < n), z3.And(
                z3.Implies(slot(o) == 0, o == nd), 0 <= slot(o), slot(o) <= len(self.strs),
                *[z3.Implies(slot(o) == m + 1, o == Z(self.fread(f, nd).o)) for m, f in enumerate(self.strs)])), patterns=[w]), "the elements own nothing else")
        if head is not None:
            k.requires(fa(bs, z3.Implies(Z(guard), self.is_at(head, 0)), *([Z(head.o)] if bs else [])), "head of the list")

    def str_ok(self, p, st=None):
        st = st or self.k.st
        b = st.mem["i8"]
        while not isinstance(b, Base):
            b = b.prev
        oo, pp = Z(p.o), Z(p.p)
        return z3.Or(oo == 0, z3.And(oo > 0, oo <= Z(st.wm), Z(alive(st.al, p.o)), pp >= 0, b.nul(oo, pp) < Size(oo), b.nul(oo, pp) < INF))


def templates(eng, L, its):
    """loop invariant candidates: a pointer walks along a list"""
    for g in eng.k_main.lists:
        for n, cls, cur, old in its:
            if cls == "ptr":
                for c in (0, 1, -1):
                    yield "%s is element iterations%+d of %s" % (n, c, g.tag0()), lambda lv, cur=cur, g=g, c=c: g.is_at(cur(lv), Z(lv.it) + c)
                yield "%s walks on %s" % (n, g.tag0()), lambda lv, cur=cur, old=old, g=g: _walk(lv, cur, old, g)
        yield "iterations<=length of %s" % g.tag0(), lambda lv, g=g: Z(lv.it) <= g.n
        yield "iterations<length of %s" % g.tag0(), lambda lv, g=g: Z(lv.it) < g.n
        yield "iterations<length of %s or empty" % g.tag0(), lambda lv, g=g: z3.Or(Z(lv.it) < g.n, z3.And(g.n == 0, Z(lv.it) == 0))
    for g in eng.k_main.lists:
        yield "nothing freed yet", lambda lv: _alive_is(lv, lambda o: z3.BoolVal(False))
        yield "elements of %s freed up to iterations" % g.tag0(), lambda lv, g=g: _alive_is(lv, g.owned(0, lv.it))
        for n, cls, cur, old in its:
            if cls == "ptr":
                yield "elements of %s freed from %s on" % (g.tag0(), n), \
                    lambda lv, g=g, old=old: _alive_is(lv, g.owned(g.pos(old(lv).o), g.pos(old(lv).o) + Z(lv.it)))
    for nm, fs in eng.k_main.freed_sets:
        yield "%s freed up to iterations" % nm, lambda lv, fs=fs: _alive_is(lv, fs(lv.it))
    for nm, t in getattr(eng.k_main, "bounds", []):
        yield "iterations<=%s" % nm, lambda lv, t=t: Z(lv.it) <= Z(t)


def _walk(lv, cur, old, g):
    p0 = old(lv)
    return z3.Implies(z3.And(Z(p0.o) != 0, g.at(g.pos(p0.o)) == Z(p0.o)), g.is_at(cur(lv), g.pos(p0.o) + Z(lv.it)))




def _alive_is(lv, freed):
    """exactly the objects in `freed` have been freed since the loop was entered"""
    from engine import Skip
    if not (lv.L.frees_seen):
        raise Skip()
    o = z3.Int("o!al")
    now, then = Z(alive(lv.s.al, o)), Z(alive(lv.e.al, o))
    ps = pats(now) or pats(then)
    return z3.ForAll([o], z3.Implies(o > 0, now == z3.And(then, z3.Not(freed(o)))), **ps)
