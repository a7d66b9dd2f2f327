"""Vocabulary for contract files"""
import z3
from sym import *
import sym
from engine import *
from templates import items

CONTRACTS = {}
LOOPS = {}
INFO = {}


def contract(name, file=None, props=(), opts=None, variant=None):
    def d(f):
        CONTRACTS[name] = f
        INFO[name] = {"file": file, "opts": opts or {}}
        return f
    return d


def loops(*names):
    def d(f):
        for n in names:
            LOOPS.setdefault(n, []).append(f)
        return f
    return d


def separate(p, q):
    return ne(p.o, q.o)


def forall_ch(k, s, lo, hi, pred, chain=None):
    """pred holds for every character of object s.o at offsets [lo,hi)"""
    j = z3.Int("j!q")
    c = Z(k.chq(Ptr(s.o, 0), j, chain))
    body = z3.Implies(z3.And(Z(lo) <= j, j < Z(hi)), Z(pred(c)))
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return z3.ForAll([j], body, patterns=[c])
    return z3.ForAll([j], body)
