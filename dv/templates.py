"""Invariant candidates that do not depend on the names of local variables.  A candidate is only a guess: the engine
keeps it iff it is initially true and preserved (Houdini); dropping a candidate can only make proofs fail, never pass."""
from sym import *
import sym


def items(eng, L):
    """(label, type class, getter current, getter entry) of everything the loop modifies: locals and memory cells"""
    out = []
    for i, (n, t) in enumerate(L.locals):
        if n in L.entry.frames[-1].loc:
            v0 = L.entry.frames[-1].loc[n]
            if v0.__class__.__name__ == "_Undef":
                continue
            out.append((n, cls_of(t), (lambda lv, n=n: lv.var(n)), (lambda lv, n=n: lv.var0(n))))
    for cls, ws in L.W.items():
        for k, o, p in ws:
            if k == "cell":
                out.append(("cell(%s+%s)" % (o, p), cls, (lambda lv, c=cls, o=o, p=p: lv.cell(c, o, p)),
                            (lambda lv, c=cls, o=o, p=p: lv.cell0(c, o, p))))
    return out


def default(eng, L):
    its = items(eng, L)
    for n, cls, cur, old in its:
        if cls in ("i8", "i16", "i32", "i64"):
            yield "%s==entry+iterations" % n, lambda lv, c=cur, o=old: eq(c(lv), add(o(lv), lv.it))
            yield "%s==entry-iterations" % n, lambda lv, c=cur, o=old: eq(c(lv), sub(o(lv), lv.it))
            yield "%s>=entry" % n, lambda lv, c=cur, o=old: le(o(lv), c(lv))
            yield "%s<=entry" % n, lambda lv, c=cur, o=old: le(c(lv), o(lv))
            yield "%s>=0" % n, lambda lv, c=cur: le(0, c(lv))
            yield "%s>=-1" % n, lambda lv, c=cur: le(-1, c(lv))
            yield "%s==entry" % n, lambda lv, c=cur, o=old: eq(c(lv), o(lv))
            yield "%s in {0,1}" % n, lambda lv, c=cur: Or(eq(c(lv), 0), eq(c(lv), 1))
            if cls == "i8" or not eng.opts.get("relations", True):
                continue
            for j, (tn, term) in enumerate(eng.k_main.terms):
                yield "%s<=%s" % (n, tn), lambda lv, c=cur, t=term: le(c(lv), t)
                yield "%s<%s" % (n, tn), lambda lv, c=cur, t=term: lt(c(lv), t)
                yield "%s>=%s" % (n, tn), lambda lv, c=cur, t=term: le(t, c(lv))
            for m, cls2, cur2, old2 in its:
                if m != n and cls2 == cls:
                    yield "%s<=%s" % (n, m), lambda lv, c=cur, d=cur2: le(c(lv), d(lv))
                    yield "%s<%s" % (n, m), lambda lv, c=cur, d=cur2: lt(c(lv), d(lv))
            # unmodified locals of the frame
            fr = L.entry.frames[-1]
            mod = {x[0] for x in L.locals}
            for m, v in fr.loc.items():
                if m in mod or v.__class__.__name__ == "_Undef":
                    continue
                if is_c(v) or (z3.is_expr(v) and z3.is_int(v)):
                    if isinstance(v, bool):
                        continue
                    yield "%s<=local %s" % (n, m), lambda lv, c=cur, v=v: le(c(lv), v)
                    yield "%s<local %s" % (n, m), lambda lv, c=cur, v=v: lt(c(lv), v)
        elif cls == "ptr":
            yield "%s.obj==entry" % n, lambda lv, c=cur, o=old: eq(c(lv).o, o(lv).o)
            yield "%s==entry" % n, lambda lv, c=cur, o=old: eq(c(lv), o(lv))
            yield "%s!=NULL" % n, lambda lv, c=cur: ne(c(lv).o, 0)
            yield "%s.off==0" % n, lambda lv, c=cur: eq(c(lv).p, 0)
            yield "%s.off>=entry" % n, lambda lv, c=cur, o=old: le(o(lv).p, c(lv).p)
            yield "%s.off<=entry" % n, lambda lv, c=cur, o=old: le(c(lv).p, o(lv).p)
            for stride in (1, -1, 8):
                yield "%s.off==entry%+d*iterations" % (n, stride), \
                    lambda lv, c=cur, o=old, s=stride: eq(c(lv).p, add(o(lv).p, mul(lv.it, s)))

            def onul(lv, c=cur, o=old):
                p = o(lv)
                if is_c(p.o) and -900000 <= p.o <= 0:
                    return None
                return lv.eng.nul(lv.s, p.o, p.p, lv.e.mem["i8"])
            if eng.opts.get("strings", True):
                def f1(lv, c=cur, o=old, g=onul):
                    N = g(lv)
                    return True if N is None else le(c(lv).p, N)

                def f2(lv, c=cur, o=old, g=onul):
                    N = g(lv)
                    return True if N is None else lt(c(lv).p, N)
                yield "%s<=end-of-string" % n, f1
                yield "%s<end-of-string" % n, f2
    import lists
    yield from lists.templates(eng, L, its)
