"""Symbolic executor / VC generator (see sym.py for the term and memory representation)."""
import re
import time
import z3
from sym import *
import ghost
from sym import _ctr
import sym

_const_no = re.compile(r"!(\d+)$")


def max_fresh(e, cache={}):
    """largest creation number of a symbol occurring in the term (python constants: -1)"""
    if is_c(e):
        return -1
    k = e.get_id()
    st = [e]
    best = -1
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            m = _const_no.search(x.decl().name())
            if m:
                best = max(best, int(m.group(1)))
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return best


def has_quant(t, cache={}):
    k = t.get_id()
    if k in cache and cache[k][0].eq(t):
        return cache[k][1]
    r = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
    cache[k] = (t, r)
    return r


def has_ite(t, cache={}):
    k = t.get_id()
    if k in cache and cache[k][0].eq(t):
        return cache[k][1]
    r = (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE) or any(has_ite(c) for c in t.children())
    cache[k] = (t, r)
    return r


class Engine:
    def __init__(self, prog, contracts, trusted, opts=None):
        self.prog = prog
        self.contracts = contracts
        self.trusted = trusted
        self.opts = {"timeout": 3000, "final_timeout": 20000, "max_paths": 4000, "must_timeout": 400,
                     "link": False, "budget": 600}
        self.opts.update(opts or {})
        self.solver = SolverStack(self.opts["timeout"])
        self.obs = []
        self.memo = self.memo_base = self.memo_refs = None
        self.silent = 0
        self.paths = 0
        self.fnname = None
        self.on_ret = None
        self.loop_specs = []
        self.deadline = time.time() + self.opts["budget"]
        self.used_contracts = set()
        self.used_trusted = set()
        self.inlined = set()
        self.assumptions = set()
        self.nb_loops = 0
        self.loop_info = []
        self.modset = None
        self.consumed = []
        self.entry_wm = None
        self.snap = {}
        self.dryloops = []
        self.globs_axioms = set()
        self.globcache = {}
        self.unclear = 0
        self.interesting = []
        self.k_main = None
        self.covers = {}

    # ------------------------------------------------------------------ solver
    def must(self, st, c, timeout=None):
        if isinstance(c, bool):
            return c
        c = S(c)
        if isinstance(c, bool):
            return c
        return self.quick(st, Not(c), timeout or self.opts["must_timeout"]) == z3.unsat

    def quick(self, st, c, timeout):
        """the answer of the solver; while a contract is replayed, the same question is not asked twice"""
        key = self.memokey(st, c)
        if key is not None and key in self.memo:
            return self.memo[key]
        r, _ = self.solver.check(st.facts, [c] if c is not True else [], timeout)
        if key is not None:
            self.memo[key] = r
        return r

    def memokey(self, st, c, what=None):
        if self.memo is None:
            return None
        n, last = self.memo_base
        if len(st.facts) < n or (n and st.facts[n - 1] is not last):
            return None                 # not a state of this contract
        tail = st.facts[n:]
        ids = []
        for f in tail + [c]:
            if isinstance(f, bool):
                ids.append(f)
            else:
                i = f.get_id()
                self.memo_refs[i] = f
                ids.append(i)
        return (what, tuple(ids))

    def memo_start(self, st):
        saved = (self.memo, self.memo_base, self.memo_refs)
        self.memo, self.memo_base, self.memo_refs = {}, (len(st.facts), st.facts[-1] if st.facts else None), {}
        return saved

    def must2(self, st, c, timeout):
        """as must; a quantified condition gets a second chance in a fresh solver"""
        if self.must(st, c, timeout):
            return True
        if isinstance(c, bool) or not has_quant(c):
            return False
        s = z3.Solver()
        s.set("timeout", timeout * 5 * sym.PATIENCE)
        for f in st.facts:
            s.add(f)
        s.add(z3.Not(c))
        t0 = time.time()
        r = s.check()
        self.solver.time += time.time() - t0
        self.solver.queries += 1
        return r == z3.unsat

    def feasible(self, st, c=True):
        if c is False:
            return False
        return self.quick(st, c, self.opts["must_timeout"]) != z3.unsat

    def oblige(self, st, c, name, detail=""):
        """emit an obligation; afterwards it may be assumed"""
        if self.silent:
            st.fact(S(c) if not isinstance(c, bool) else c) if c is not False else st.fact(False)
            return True
        if time.time() > self.deadline:
            raise PathLimit("time budget of the function exhausted")
        line = self.cur_line(st)
        t0 = time.time()
        c = S(c) if not isinstance(c, bool) else c
        if c is True:
            self.obs.append(Ob(name, self.fnname, line, "ok", 0.0, "simplifier"))
            return True
        key = self.memokey(st, c, "ob")
        if key is not None and key in self.memo:
            self.obs.append(Ob(name, self.fnname, line, "ok", *self.memo[key]))
            st.fact(c)
            return True
        r, m = self.solver.check(st.facts, [Not(c)])
        be = "z3-incremental"
        if r == z3.unknown:
            be = "z3"
            s = z3.Solver()
            s.set("timeout", self.opts["final_timeout"] * sym.PATIENCE)
            s.set("smt.random_seed", 1)
            for f in st.facts:
                s.add(f)
            s.add(Z(Not(c)))
            r = s.check()
            if r == z3.sat:
                m = s.model()
            if r == z3.unknown:
                r2 = self.cvc5(st.facts, c)
                if r2 == "unsat":
                    r = z3.unsat
                    be = "cvc5"
        dt = time.time() - t0
        if r == z3.unsat:
            self.obs.append(Ob(name, self.fnname, line, "ok", dt, be))
            if key is not None:
                self.memo[key] = (dt, be)
            st.fact(c)
            return True
        if os.environ.get("DUMP") and os.environ["DUMP"] in name:
            ss = z3.Solver()
            for f in st.facts: ss.add(f)
            ss.add(Z(Not(c)))
            open("/tmp/dump.smt2", "w").write(ss.to_smt2() + "(get-model)")
        status = "fail" if r == z3.sat else "unknown"
        self.obs.append(Ob(name, self.fnname, line, status, dt, be,
                           detail + " :: " + str(c)[:300], m))
        self.obs[-1].detail += " path=" + "/".join(str(x) for x in st.trace[-14:])
        st.fact(c)
        return False

    def cvc5(self, facts, c):
        try:
            import cvc5
            s = z3.Solver()
            for f in facts:
                s.add(f)
            s.add(Z(Not(c)))
            txt = s.to_smt2()
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption("tlimit-per", str(self.opts["final_timeout"]))
            slv.setLogic("ALL")
            pr = cvc5.InputParser(slv)
            pr.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "vc")
            smg = pr.getSymbolManager()
            res = ""
            while True:
                cmd = pr.nextCommand()
                if cmd.isNull():
                    break
                res += str(cmd.invoke(slv, smg))
            return "unsat" if "unsat" in res else "other"
        except Exception as e:
            return "err %s" % e

    def cur_line(self, st):
        for f in reversed(st.frames):
            ins = f.fn.blocks[f.blk]
            i = min(f.idx, len(ins) - 1)
            if ins[i].line:
                return "%s:%s" % (os.path.basename(f.fn.module.src), ins[i].line)
        return "?"

    # ------------------------------------------------------------------ memory
    def read_base(self, st, b, o, p):
        v = b.get(o, p)
        if b.cls == "ptr":
            k = (b.id, v.o.get_id())
            if k not in st.seen:
                st.seen.add(k)
                st.seen.add(("keep", v.o))
                st.fact(z3.And(v.o >= 0, v.o <= Z(b.wm), z3.Implies(v.o == 0, v.p == 0)))
            return v
        if b.cls in ("i8", "i16", "i32", "i64"):
            k = (b.id, v.get_id())
            if k not in st.seen:
                st.seen.add(k)
                st.seen.add(("keep", v))
                st.fact(rng(v, 8 * CLS_W[b.cls]))
                if b.cls == "i8" and self.opts.get("lines"):
                    st.fact(ghost.step_fact(b.id, o, p, v))
        return v

    def lines(self, st, ptr, chain=None):
        """(newlines before ptr, offset after the last of them), counted in ptr's object"""
        ch = self.skip(st, chain if chain is not None else st.mem["i8"], ptr.o)
        if not isinstance(ch, Base):
            ch = self.snapshot(st, ch, ptr.o)
        k = ("lines", ch.id, ptr.o if is_c(ptr.o) else ptr.o.get_id())
        if k not in st.seen:
            st.seen.add(k)
            for a in ghost.axioms(ch.id, ptr.o):
                st.fact(a)
        o, p = Z(ptr.o), Z(ptr.p)
        return ghost.lnp(ch.id)(o, p), ghost.last(ch.id)(o, p)

    def read(self, st, cls, o, p, chain=None, facts=True):
        if is_c(o) and o <= -1000000:
            return self.read_global(st, cls, o, p)
        if chain is None:
            chain = st.mem[cls]
        v = self._read(st, chain, cls, o, p, facts)
        if facts and cls == "ptr" and z3.is_expr(v.o) and has_ite(v.o) and not (is_c(o) and o <= -1000000) and not self.isbound(v.o):
            w = fresh_ptr("pv")
            st.fact(z3.And(w.o == Z(v.o), w.p == Z(v.p)))
            return w
        return v

    @staticmethod
    def isbound(t, cache={}):
        k = t.get_id()
        if k in cache and cache[k][0].eq(t):
            return cache[k][1]
        if z3.is_var(t) or (z3.is_const(t) and "!" in t.decl().name() and t.decl().name()[1:2] == "!" ):
            r = True
        elif z3.is_const(t) and t.decl().name().startswith("off!"):
            r = True
        else:
            r = any(Engine.isbound(c) for c in t.children())
        cache[k] = (t, r)
        return r

    def same(self, st, a, b):
        """True / False / None"""
        e = eq(a, b)
        if isinstance(e, bool):
            return e
        d = S(Z(a) - Z(b))
        if isinstance(d, int):
            return d == 0
        if st is None:
            return None
        if self.must(st, e):
            return True
        if self.must(st, Not(e)):
            return False
        return None

    def _read(self, st, ch, cls, o, p, facts):
        outs = []
        while True:
            if isinstance(ch, Base):
                v = self.read_base(st, ch, o, p) if facts else ch.get(o, p)
                break
            if isinstance(ch, Store):
                so = self.same(st, o, ch.o)
                if so is False:
                    ch = ch.prev
                    continue
                sp = self.same(st, p, ch.p)
                if sp is False:
                    ch = ch.prev
                    continue
                if so and sp:
                    v = ch.v
                    break
                c = And(eq(o, ch.o), eq(p, ch.p))
                if self.must(st, Not(c)):
                    ch = ch.prev
                    continue
                outs.append((c, ch.v))
                ch = ch.prev
                continue
            if isinstance(ch, (Fill, Copy)):
                so = self.same(st, o, ch.o)
                if so is False:
                    ch = ch.prev
                    continue
                c = And(eq(o, ch.o), le(ch.lo, p), lt(p, ch.hi))
                if self.must(st, Not(c)):
                    ch = ch.prev
                    continue
                if isinstance(ch, Fill):
                    x = ch.v
                else:
                    q = add(ch.sp, sub(p, ch.lo))
                    x = self._read(st, ch.src, cls, ch.so, q, facts) if not (is_c(ch.so) and ch.so <= -1000000) \
                        else self.read_global(st, cls, ch.so, q)
                if self.must(st, c):
                    v = x
                    break
                outs.append((c, x))
                ch = ch.prev
                continue
            if isinstance(ch, StrNode):
                so = self.same(st, o, ch.o)
                if so is False:
                    ch = ch.prev
                    continue
                x = ch.char(self, st, p)
                if so:
                    v = x
                    break
                outs.append((eq(o, ch.o), x))
                ch = ch.prev
                continue
            if isinstance(ch, Havoc):
                c = ch.cond(o, p)
                c = S(c) if not isinstance(c, bool) else c
                if c is False or self.must(st, Not(c)):
                    ch = ch.prev
                    continue
                x = self.read_base(st, ch.base, o, p) if facts else ch.base.get(o, p)
                if c is True or self.must(st, c):
                    v = x
                    break
                outs.append((c, x))
                ch = ch.prev
                continue
            if isinstance(ch, IteMem):
                if self.must(st, ch.c):
                    ch = ch.a
                    continue
                if self.must(st, Not(ch.c)):
                    ch = ch.b
                    continue
                v = ite(ch.c, self._read(st, ch.a, cls, o, p, facts), self._read(st, ch.b, cls, o, p, facts))
                break
            raise Unsupported("chain node")
        for c, x in reversed(outs):
            v = ite(c, x, v)
        return v

    def read_global(self, st, cls, o, p):
        e = self.prog.gobj.get(o)
        if e is None or e[0] != "var":
            raise Unsupported("read of non-variable global")
        if not e[4]:
            key = (o, p if is_c(p) else p.get_id(), cls)
            # mutable / external global: an unconstrained but path-stable value
            for (kk, ver, v) in st.ghost.get("globals", ()):
                if kk == key:
                    return v
            v = self.fresh_val(st, cls, "glob." + e[1])
            st.ghost["globals"] = st.ghost.get("globals", ()) + ((key, 0, v),)
            return v
        flat = self.prog.gflat(o)
        if not is_c(p):
            p = self.concretize(st, p)
        if is_c(p):
            if p in flat and flat[p][0] == cls:
                return flat[p][1]
            if p in flat and flat[p][1] in (0, NULL):
                return NULL if cls == "ptr" else 0
            raise Unsupported("global read at odd offset %s+%s" % (e[1], p))
        items = sorted((k, v[1]) for k, v in flat.items() if v[0] == cls)
        if len(items) > 400:
            raise Unsupported("large global table read")
        v = items[-1][1]
        for k, x in reversed(items[:-1]):
            v = ite(eq(p, k), x, v)
        return v

    def concretize(self, st, t):
        if is_c(t):
            return t
        t = S(t)
        if is_c(t):
            return t
        r, m = self.solver.check(st.facts, [], self.opts["must_timeout"])
        cand = None
        if m is not None:
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                cand = v.as_long()
        if cand is None:
            return t
        if self.must(st, t == cand):
            return cand
        return t

    def fresh_val(self, st, cls, name):
        if cls == "ptr":
            v = fresh_ptr(name)
            st.fact(z3.And(v.o >= 0, v.o <= Z(st.wm), z3.Implies(v.o == 0, v.p == 0)))
            return v
        if cls in ("f32", "f64"):
            return fresh_real(name)
        v = fresh_int(name)
        st.fact(rng(v, 8 * CLS_W[cls]))
        return v

    def valid_cond(self, st, ptr, n):
        if is_c(ptr.o) and ptr.o < 0:
            if ptr.o in self.prog.gobj:
                sz = self.prog.gobj[ptr.o][5] if self.prog.gobj[ptr.o][0] == "var" else None
                if sz is None:
                    return True
            else:
                sz = st.sizes.get(ptr.o)
                if sz is None:
                    raise Unsupported("unknown local object")
            return And(le(0, ptr.p), le(add(ptr.p, n), sz))
        if is_c(ptr.o) and ptr.o == 0:
            return False
        return And(ne(ptr.o, 0), alive(st.al, ptr.o), le(0, ptr.p), le(add(ptr.p, n), Size(Z(ptr.o))))

    def check_access(self, st, ptr, n, what):
        if not isinstance(ptr, Ptr):
            raise Unsupported("access through non-pointer")
        if is_c(ptr.o) and ptr.o > 0:
            pass
        key = (ptr.o if is_c(ptr.o) else ptr.o.get_id(), ptr.p if is_c(ptr.p) else ptr.p.get_id(),
               n if is_c(n) else n.get_id(), id(st.al))
        if key in st.valid:
            return
        c = self.valid_cond(st, ptr, n)
        self.oblige(st, c, "memory-safety/" + what)
        st.valid.add(key)
        st.seen.add(("keepp", ptr.o if not is_c(ptr.o) else None, ptr.p if not is_c(ptr.p) else None, st.al))

    def frame_check(self, st, cls, o, p):
        for d in self.dryloops:
            d.writes.append((cls, o, p, st))
        if self.modset is None:
            return
        if is_c(o) and o < 0:
            if o in self.prog.gobj and not self.opts.get("globals_writable"):
                self.oblige(st, Or(*[r.has(cls, o, p) for r in self.modset]), "frame/global-write")
            return
        if self.silent:
            return
        c = Or(lt(self.entry_wm, o), *[r.has(cls, o, p) for r in self.modset], *[f(o) for f in self.consumed])
        self.oblige(st, c, "frame/write-outside-modifies")

    def load(self, st, t, ptr, what="load"):
        t = t
        if t.k == "f80":
            raise Unsupported("x86_fp80")
        cls = cls_of(t)
        if is_c(ptr.o) and ptr.o == CTYPE_OBJ:
            return ("ctype", S(sub(ptr.p, 0)))
        if is_c(ptr.o) and ptr.o <= -3000000:
            raise Unsupported("load from special object")
        self.check_access(st, ptr, CLS_W[cls], "read")
        v = self.read(st, cls, ptr.o, ptr.p)
        return v

    def store(self, st, cls, ptr, v):
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            v = ite(v, 1, 0)
        if cls != "ptr" and isinstance(v, (PtrInt,)):
            raise Unsupported("store of ptrtoint")
        self.frame_check(st, cls, ptr.o, ptr.p)
        if cls == "ptr" and self.dryloops and isinstance(v, Ptr):
            # a havocked pointer cell is taken to hold NULL or an object, never the address of a local variable or a constant
            if any(o < 0 for o in const_leaves(v.o) or ()):
                raise Unsupported("address of a local variable or constant stored in memory in a loop")
        st.mem[cls] = Store(st.mem[cls], ptr.o, ptr.p, v)

    # ------------------------------------------------------------------ strings
    def nul(self, st, o, p, chain=None):
        """offset of the first NUL at or after p (INF if none)"""
        if is_c(o) and o <= -1000000:
            flat = self.prog.gflat(o)
            lit = [flat[i][1] for i in range(len(flat))]
            zs = [i for i, c in enumerate(lit) if c == 0]
            if is_c(p):
                return min([z for z in zs if z >= p], default=INF)
            v = INF
            for z in reversed(zs):
                v = ite(le(p, z), z, v)
            return v
        ch = chain if chain is not None else st.mem["i8"]
        ch = self.skip(st, ch, o)
        if isinstance(ch, Base):
            kk = ("nulat", ch.id, o if is_c(o) else o.get_id())
            known = st.ghost.get(kk)
            if known is not None:
                # the same text at another position: the same terminator
                p0, N0 = known
                c = And(le(p0, p), le(p, N0))
                if not (is_c(p) and is_c(p0) and p == p0) and self.must(st, c):
                    return N0
            self.str_facts(st, ch, o, p)
            N = S(ch.nul(Z(o), Z(p)))
            if known is None:
                st.ghost = dict(st.ghost)
                st.ghost[kk] = (p, N)
                st.ghost[kk + ("keep",)] = o
            return N
        if isinstance(ch, StrNode):
            L = ch.length
            if self.same(st, p, 0):
                return L
            if self.must(st, And(le(0, p), le(p, L))):
                return L
            return ite(And(le(0, p), le(p, L)), L, INF)
        if isinstance(ch, IteMem):
            return ite(ch.c, self.nul(st, o, p, ch.a), self.nul(st, o, p, ch.b))
        b = self.snapshot(st, ch, o)
        self.str_facts(st, b, o, p)
        return S(b.nul(Z(o), Z(p)))

    def skip(self, st, ch, o):
        """walk down to the first node that may touch object o"""
        while True:
            if isinstance(ch, (Store, Fill, Copy, StrNode)):
                s = self.same(st, o, ch.o)
                if s is False:
                    ch = ch.prev
                    continue
                if isinstance(ch, StrNode) and s is None:
                    return ch  # caller snapshots
                return ch
            if isinstance(ch, Havoc):
                c = ch.touches(o)
                c = S(c) if not isinstance(c, bool) else c
                if c is False or self.must(st, Not(c)):
                    ch = ch.prev
                    continue
                # whole object replaced?
                j = z3.Int("skipj")
                w = ch.cond(o, j)
                w = S(w) if not isinstance(w, bool) else w
                if w is True or self.must(st, w):
                    return ch.base
                return ch
            if isinstance(ch, IteMem):
                if self.must(st, ch.c):
                    ch = ch.a
                    continue
                if self.must(st, Not(ch.c)):
                    ch = ch.b
                    continue
                a, b = self.skip(st, ch.a, o), self.skip(st, ch.b, o)
                if a is b:
                    return a
                return ch
            return ch

    def snapshot(self, st, ch, o):
        key = (id(ch), o if is_c(o) else o.get_id())
        if key in self.snap:
            b = self.snap[key][0]
        else:
            b = Base("i8", st.wm)
            self.snap[key] = (b, ch, o)
        if ("snap", b.id) not in st.seen:
            st.seen.add(("snap", b.id))
            j = z3.Int("j!snap%d" % b.id)
            v = self._read_q(st, ch, o, j)
            st.fact(z3.ForAll([j], b.f(Z(o), j) == v, patterns=[b.f(Z(o), j)]))
        return b

    def _read_q(self, st, ch, o, j):
        """read at a bound offset: no per-offset facts"""
        return Z(self._read(st, ch, "i8", o, j, False))

    def simple(self, st, t):
        """a term without case distinctions (usable in patterns) equal to t"""
        if is_c(t) or not has_ite(t):
            return t
        k = ("simple", t.get_id())
        if k not in st.ghost:
            w = fresh_int("t")
            st.ghost[k] = (w, t)
        st.fact(st.ghost[k][0] == t)
        return st.ghost[k][0]

    def str_facts(self, st, b, o, p):
        if not is_c(o) and has_ite(o):
            o = self.simple(st, o)
        if not is_c(p) and has_ite(p):
            p = self.simple(st, p)
        N = b.nul(Z(o), Z(p))
        k = ("nul", b.id, N.get_id())
        if k in st.seen:
            return
        st.seen.add(k)
        st.seen.add(("keep", N))
        j = z3.Int("j!n")
        st.fact(z3.And(N >= Z(p), N <= INF,
                       z3.Implies(N < INF, b.f(Z(o), N) == 0),
                       z3.ForAll([j], z3.Implies(z3.And(Z(p) <= j, j < N), b.f(Z(o), j) != 0),
                                 patterns=[b.f(Z(o), j)])))

    def valid_string(self, st, ptr):
        if is_c(ptr.o) and ptr.o == 0:
            return False
        N = self.nul(st, ptr.o, ptr.p)
        if is_c(ptr.o) and ptr.o < 0:
            sz = self.prog.gobj[ptr.o][5] if ptr.o in self.prog.gobj else st.sizes[ptr.o]
            return And(le(0, ptr.p), lt(N, sz))
        return And(ne(ptr.o, 0), alive(st.al, ptr.o), le(0, ptr.p), lt(N, Size(Z(ptr.o))), lt(N, INF))

    def lit(self, ptr):
        """bytes of the literal ptr points to or None"""
        if isinstance(ptr, Ptr) and is_c(ptr.o) and is_c(ptr.p) and ptr.o <= -1000000:
            b = self.prog.literal(ptr.o)
            if b is not None and 0 <= ptr.p <= len(b):
                b = b[ptr.p:]
                return b.split(b"\0")[0]
        return None

    @staticmethod
    def lit_rank(b):
        from fractions import Fraction
        r = Fraction(1)
        q = Fraction(1)
        for c in b:
            q /= 257
            r += q * (c + 1)
        return r

    def rank(self, st, ptr, chain=None):
        """content of the string as a real number; strcmp order is the order of ranks; NULL is -1"""
        if is_c(ptr.o) and ptr.o == 0:
            return z3.RealVal(-1)
        b = self.lit(ptr)
        if b is not None:
            return z3.RealVal(self.lit_rank(b))
        ch = chain if chain is not None else st.mem["i8"]
        ch = self.skip(st, ch, ptr.o)
        if isinstance(ch, StrNode) and self.same(st, ptr.o, ch.o) and self.same(st, ptr.p, 0):
            return ch.rank
        if isinstance(ch, IteMem):
            return z3.If(ch.c, self.rank(st, ptr, ch.a), self.rank(st, ptr, ch.b))
        if not isinstance(ch, Base):
            ch = self.snapshot(st, ch, ptr.o)
        r = ch.rank(Z(ptr.o), Z(ptr.p))
        k = ("rank", ch.id, r.get_id())
        if k not in st.seen:
            st.seen.add(k)
            st.seen.add(("keep", r))
            c0 = ch.f(Z(ptr.o), Z(ptr.p))
            st.fact(z3.And(r >= 1, r < 2, (r == 1) == (c0 == 0)))
        return r

    def rank0(self, st, ptr):
        """rank of a possibly NULL string: -1 for NULL"""
        if is_c(ptr.o) and ptr.o == 0:
            return z3.RealVal(-1)
        if is_c(ptr.o):
            return self.rank(st, ptr)
        return z3.If(ptr.o == 0, z3.RealVal(-1), self.rank(st, ptr))

    def char(self, st, ptr, i):
        return self.read(st, "i8", ptr.o, add(ptr.p, i))

    def char_q(self, st, ptr, i, chain=None):
        """character at a possibly bound index (no side facts)"""
        if is_c(ptr.o) and ptr.o <= -1000000:
            return self.read_global(st, "i8", ptr.o, add(ptr.p, i))
        return self._read(st, chain if chain is not None else st.mem["i8"], "i8", ptr.o, add(ptr.p, i), False)

    def inset(self, st, setptr, c):
        """c is one of the characters of the string setptr (0 is not)"""
        b = self.lit(setptr)
        if b is not None:
            vals = sorted(set(wrap_c(x, 8) for x in b))
            out = []
            i = 0
            while i < len(vals):
                j = i
                while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
                    j += 1
                out.append(eq(c, vals[i]) if i == j else And(le(vals[i], c), le(c, vals[j])))
                i = j + 1
            return Or(*out)
        r = self.rank(st, setptr)
        return And(InSet(r, Z(c)), ne(c, 0))

    # ------------------------------------------------------------------ values
    def val(self, st, t, v):
        k = v[0]
        if k == "reg":
            r = st.top.regs
            if v[1] not in r:
                raise Unsupported("undefined register %s in %s" % (v[1], st.top.fn.name))
            return r[v[1]]
        if k == "int":
            if t.k == "int":
                if t.w == 1:
                    return bool(v[1] & 1)
                return wrap_c(v[1], t.w)
            return v[1]
        if k == "null":
            return NULL
        if k == "glob":
            return Ptr(self.prog.gid(v[1], st.top.fn.module), 0)
        if k == "zero":
            return NULL if t.k == "ptr" else 0
        if k == "undef":
            return self.fresh_val(st, cls_of(t), "undef")
        if k == "float":
            from fractions import Fraction
            return z3.RealVal(Fraction(v[1]))
        if k == "gep":
            b = self.val(st, PTR, v[2][0][1])
            return Ptr(b.o, add(b.p, self.prog.gepoff(v, st.top.fn.module)))
        if k == "cast" and v[1] in ("ptrtoint",):
            p = self.val(st, v[2], v[3])
            return PtrInt(p.o, p.p)
        raise Unsupported("value %r" % (v,))

    def tobool(self, x):
        if isinstance(x, bool):
            return x
        if isinstance(x, int):
            return x != 0
        if z3.is_bool(x):
            return x
        return S(x != 0)

    # ------------------------------------------------------------------ running
    def new_frame(self, st, fn, args, ret):
        f = Frame()
        f.uc = {}
        f.fn = fn
        f.regs = {}
        f.loc = {}
        f.blk = fn.entry
        f.idx = 0
        f.prev = None
        f.ret = ret
        f.loops = []
        f.uid = next(_ctr)
        f.esc = self.prog.escaping(fn)
        f.va = args[len(fn.params):]
        for (t, n), a in zip(fn.params, args):
            f.regs[n] = a
        st.frames.append(f)
        if len(st.frames) > 30:
            raise Unsupported("inlining too deep")
        return f

    def explore(self, states):
        work = list(states)
        while work:
            st = work.pop()
            while True:
                nxt = self.step_block(st)
                if nxt is None:
                    break
                if isinstance(nxt, list):
                    if not nxt:
                        break
                    self.paths += len(nxt) - 1
                    if self.paths > self.opts["max_paths"]:
                        raise PathLimit("more than %d paths" % self.opts["max_paths"])
                    if time.time() > self.deadline:
                        raise PathLimit("time budget of the function exhausted")
                    st = nxt[0]
                    work.extend(reversed(nxt[1:]))
                    continue
                st = nxt

    def fork(self, st, conds):
        """list of (cond, action) -> feasible copies"""
        out = []
        live = []
        for c, act in conds:
            c = S(c) if not isinstance(c, bool) else c
            if c is False:
                continue
            live.append((c, act))
        if len(live) == 1 and live[0][0] is True:
            s = st
            live[0][1](s)
            return [s]
        for n, (c, act) in enumerate(live):
            if c is not True and not self.feasible(st, c):
                continue
            s = st.copy()
            s.fact(c)
            act(s)
            out.append(s)
        return out

    def step_block(self, st):
        """run until a fork or the end of the path; returns None (path over), a state, or a list of states"""
        while True:
            f = st.top
            ins = f.fn.blocks[f.blk][f.idx]
            op = ins.op
            h = getattr(self, "op_" + op, None)
            if h is None:
                h = self.op_bin
            r = h(st, f, ins)
            if r is NEXT:
                f.idx += 1
                continue
            if r is JUMPED:
                continue
            return r

    def goto(self, st, target):
        f = st.top
        while f.loops and target not in f.loops[-1].blocks:
            L = f.loops.pop()
            if L.mode != "final":
                return None
        f.prev = f.blk
        if f.loops and target == f.loops[-1].header:
            self.back_edge(st, f.loops[-1])
            return None
        loops = self.prog.loops(f.fn)
        ul = self.opts.get("unroll")
        if target in loops and ul and (not isinstance(ul, dict) or f.fn.name in ul):
            lim = ul[f.fn.name] if isinstance(ul, dict) else ul
            n = f.uc.get(target, 0) + 1 if f.prev in loops[target] else 0
            f.uc = dict(f.uc)
            f.uc[target] = n
            if n > lim:
                raise PathLimit("loop in %s does not end after %d iterations (complete unrolling)" % (f.fn.name, lim))
            f.blk = target
            f.idx = 0
            return st
        if target in loops:
            f.blk = target
            f.idx = 0
            return self.enter_loop(st, target, loops[target])
        f.blk = target
        f.idx = 0
        return st

    def op_br(self, st, f, ins):
        a = ins.a
        if a[0] is None:
            r = self.goto(st, a[1])
            return JUMPED if r is st else r
        c = self.tobool(self.val(st, irparse.INTS[1], a[0]))
        if isinstance(c, bool):
            r = self.goto(st, a[1] if c else a[2])
            return JUMPED if r is st else r
        outs = []
        for cond, tgt in ((c, a[1]), (Not(c), a[2])):
            if self.feasible(st, cond):
                s = st.copy()
                s.fact(S(cond))
                s.trace.append("%s%s" % (ins.line, "T" if tgt == a[1] else "F"))
                outs.append((s, tgt))
        res = []
        for s, tgt in outs:
            r = self.goto(s, tgt)
            if r is None:
                continue
            if isinstance(r, list):
                res.extend(r)
            else:
                res.append(r)
        return res

    def op_switch(self, st, f, ins):
        t, v, d, cases = ins.a
        x = self.val(st, t, v)
        if is_c(x):
            tgt = d
            for c, b in cases:
                if wrap_c(c, t.w) == x:
                    tgt = b
            r = self.goto(st, tgt)
            return JUMPED if r is st else r
        res = []
        rest = []
        for c, b in cases:
            cc = x == wrap_c(c, t.w)
            rest.append(Not(cc))
            if self.feasible(st, cc):
                s = st.copy()
                s.fact(cc)
                s.trace.append("%ssw%s" % (ins.line, c))
                r = self.goto(s, b)
                if r is not None:
                    res.extend(r if isinstance(r, list) else [r])
        if self.feasible(st, And(*rest)):
            s = st.copy()
            s.fact(And(*rest))
            s.trace.append("%sdef" % ins.line)
            r = self.goto(s, d)
            if r is not None:
                res.extend(r if isinstance(r, list) else [r])
        return res

    def op_ret(self, st, f, ins):
        t, v = ins.a
        val = self.val(st, t, v) if v is not None else None
        if any(L.mode != "final" for L in f.loops):
            return None
        f.loops = []
        if len(st.frames) == 1:
            if self.on_ret:
                self.on_ret(st, val)
            return None
        ret = f.ret
        st.frames.pop()
        if isinstance(ret, str):
            st.top.regs[ret] = val
        elif callable(ret):
            ret(st, val)
        st.top.idx += 1
        return JUMPED

    def op_unreachable(self, st, f, ins):
        return None

    def op_alloca(self, st, f, ins):
        t, cnt = ins.a
        if not f.esc.get(ins.dst, True):
            f.loc[ins.dst] = UNDEF
            return NEXT
        n = 1
        if cnt is not None:
            n = self.val(st, cnt[0], cnt[1])
        st.nloc += 1
        o = -st.nloc
        st.sizes[o] = mul(self.prog.sizeof(t, f.fn.module), n)
        # uninitialised content: a fresh base per class
        for c in CLASSES:
            st.mem[c] = Havoc(st.mem[c], (lambda o: lambda oo, pp: eq(oo, o))(o), Base(c, st.wm),
                              (lambda o: lambda oo: eq(oo, o))(o))
        f.regs[ins.dst] = Ptr(o, 0)
        return NEXT

    def op_load(self, st, f, ins):
        t, v = ins.a
        if v[0] == "reg" and v[1] in f.loc:
            x = f.loc[v[1]]
            if x is UNDEF:
                self.oblige(st, False, "uninitialised-read")
                x = self.fresh_val(st, cls_of(t), v[1])
                f.loc[v[1]] = x
            if t.k == "int" and t.w == 1:
                x = self.tobool(x)
            f.regs[ins.dst] = x
            return NEXT
        p = self.val(st, PTR, v)
        x = self.load(st, t, p)
        if isinstance(x, Ptr) and z3.is_expr(x.o) and is_c(p.o) and p.o <= -1000000:
            lv = self.leaves(x)
            if lv is not None:
                return self.fork(st, [(c, (lambda s, q=q: (s.top.regs.__setitem__(ins.dst, q), setattr(s.top, "idx", s.top.idx + 1))))
                                      for c, q in lv])
        f.regs[ins.dst] = x
        return NEXT

    @staticmethod
    def leaves(x):
        """[(condition, constant pointer)] of a pointer that is a case distinction over constants, else None"""
        out = {}

        def walk(o, p, cs):
            if z3.is_expr(o) and o.decl().kind() == z3.Z3_OP_ITE:
                c = o.arg(0)
                a, b = S(o.arg(1)), S(o.arg(2))
                pa = pb = p
                if z3.is_expr(p) and p.decl().kind() == z3.Z3_OP_ITE and p.arg(0).eq(c):
                    pa, pb = S(p.arg(1)), S(p.arg(2))
                return walk(a, pa, cs + [c]) and walk(b, pb, cs + [z3.Not(c)])
            if not is_c(o) or not is_c(p):
                return False
            out.setdefault((o, p), []).append(And(*cs))
            return True
        if not walk(x.o, x.p, []) or len(out) > 40:
            return None
        return [(Or(*cs), Ptr(o, p)) for (o, p), cs in out.items()]

    def op_store(self, st, f, ins):
        t, v, pv = ins.a
        x = self.val(st, t, v)
        if pv[0] == "reg" and pv[1] in f.loc:
            if isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x)):
                x = ite(x, 1, 0)
            f.loc[pv[1]] = x
            return NEXT
        p = self.val(st, PTR, pv)
        cls = cls_of(t)
        self.check_access(st, p, CLS_W[cls], "write")
        self.store(st, cls, p, x)
        return NEXT

    def op_getelementptr(self, st, f, ins):
        base, ops = ins.a
        p = self.val(st, PTR, ops[0][1])
        if isinstance(p, PtrInt):
            p = Ptr(p.o, p.p)
        mod = f.fn.module
        bt = self.prog.resolve(base, mod)
        off = mul(self.val(st, ops[1][0], ops[1][1]), self.prog.sizeof(bt, mod))
        t = bt
        for tt, vv in ops[2:]:
            i = self.val(st, tt, vv)
            if t.k == "arr":
                off = add(off, mul(i, self.prog.sizeof(t.el, mod)))
                t = self.prog.resolve(t.el, mod)
            else:
                off = add(off, self.prog.fieldoff(t, i, mod))
                t = self.prog.resolve(t.fields[i], mod)
        f.regs[ins.dst] = Ptr(p.o, add(p.p, off))
        return NEXT

    def inrange(self, st, x, w):
        if is_c(x):
            return -(1 << (w - 1)) <= x < (1 << (w - 1))
        return self.must(st, rng(x, w))

    def wrap(self, st, x, w, once=True):
        if is_c(x):
            return wrap_c(x, w)
        if self.inrange(st, x, w):
            return x
        m = 1 << w
        if once:
            return S(z3.If(x < -(m >> 1), x + m, z3.If(x >= (m >> 1), x - m, x)))
        return S((x + (m >> 1)) % m - (m >> 1))

    def op_bin(self, st, f, ins):
        op = ins.op
        t, a, b, fl = ins.a
        x = self.val(st, t, a)
        y = self.val(st, t, b)
        f.regs[ins.dst] = self.binop(st, op, t, x, y, fl)
        return NEXT

    def binop(self, st, op, t, x, y, fl):
        if op[0] == "f":
            return self.fbin(st, op, t, x, y)
        w = t.w
        if isinstance(x, tuple) and not isinstance(x, (Ptr, PtrInt)):
            # ctype table entry
            raise Unsupported("arith on ctype")
        if isinstance(x, PtrInt) or isinstance(y, PtrInt):
            if op == "sub" and isinstance(x, PtrInt) and isinstance(y, PtrInt):
                if self.same(st, x.o, y.o) is not True:
                    self.oblige(st, eq(x.o, y.o), "pointer-difference-same-object")
                return sub(x.p, y.p)
            raise Unsupported("arithmetic on pointer values: " + op)
        if w == 1:
            x, y = self.tobool(x), self.tobool(y)
            if op == "xor":
                return Not(x) if y is True else (x if y is False else S(z3.Xor(Z(x), Z(y))))
            if op == "and":
                return And(x, y)
            if op == "or":
                return Or(x, y)
        if op in ("add", "sub", "mul"):
            r = add(x, y) if op == "add" else sub(x, y) if op == "sub" else mul(x, y)
            if "nsw" in fl:
                if self.opts.get("nsw") == "trust":
                    st.fact(rng(r, w)) if not isinstance(rng(r, w), bool) else None
                    return r
                self.oblige(st, rng(r, w), "signed-overflow")
                return r
            return self.wrap(st, r, w, once=(op != "mul"))
        if op in ("sdiv", "srem", "udiv", "urem"):
            self.oblige(st, ne(y, 0), "division-by-zero")
            if op[0] == "u":
                x, y = u(x, w), u(y, w)
            if is_c(x) and is_c(y) and y != 0:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = q if op.endswith("div") else x - q * y
                return wrap_c(r, w)
            nonneg = op[0] == "u" or (self.must(st, le(0, x)) and self.must(st, lt(0, y)))
            if nonneg:
                r = S(Z(x) / Z(y)) if op.endswith("div") else S(Z(x) % Z(y))
            else:
                x, y = Z(x), Z(y)
                ax = z3.If(x < 0, -x, x)
                ay = z3.If(y < 0, -y, y)
                q = z3.If((x < 0) == (y < 0), ax / ay, -(ax / ay))
                r = S(q) if op.endswith("div") else S(x - q * y)
            return self.wrap(st, r, w)
        if op == "and":
            if is_c(x):
                x, y = y, x
            if is_c(x) and is_c(y):
                return wrap_c(x & y, w)
            if is_c(y):
                m = y % (1 << w)
                if m == 0:
                    return 0
                if m == (1 << w) - 1:
                    return x
                if m & (m + 1) == 0:      # low mask
                    ux = x if self.must(st, le(0, x)) else u(x, w)
                    return S(ux % (m + 1))
                if m & (m - 1) == 0:      # single bit
                    ux = u(x, w)
                    return self.wrap(st, S(((ux / m) % 2) * m), w)
                inv = (1 << w) - 1 - m
                if inv & (inv + 1) == 0:  # clear low bits
                    ux = u(x, w)
                    return self.wrap(st, S(ux - ux % (inv + 1)), w)
            r = fresh_int("and")
            st.fact(rng(r, w))
            st.fact(z3.Implies(Z(And(le(0, x), le(0, y))), z3.And(r >= 0, r <= Z(x), r <= Z(y))))
            return r
        if op == "or":
            if is_c(x) and is_c(y):
                return wrap_c(x | y, w)
            if is_c(x) and x == 0:
                return y
            if is_c(y) and y == 0:
                return x
            b = self.as01(x), self.as01(y)
            if b[0] is not None and b[1] is not None:
                return ite(Or(*b), 1, 0)
            r = BvOr[w](Z(x), Z(y)) if w in BvOr else fresh_int("or")
            st.fact(rng(r, w))
            st.fact(z3.Implies(Z(And(le(0, x), le(0, y))), z3.And(r >= Z(x), r >= Z(y), r <= Z(x) + Z(y))))
            return r
        if op == "xor":
            if is_c(x) and is_c(y):
                return wrap_c(x ^ y, w)
            b = self.as01(x), self.as01(y)
            if b[0] is not None and b[1] is not None:
                return ite(z3.Xor(Z(b[0]), Z(b[1])), 1, 0)
            r = fresh_int("xor")
            st.fact(rng(r, w))
            return r
        if op in ("shl", "lshr", "ashr"):
            if not is_c(y):
                raise Unsupported("symbolic shift")
            if op == "shl":
                return self.wrap(st, mul(x, 1 << y), w, once=False)
            if op == "lshr":
                return self.wrap(st, S(Z(u(x, w)) / (1 << y)), w)
            if is_c(x):
                return x >> y
            return S(x / (1 << y))   # z3 div floors for positive divisors
        raise Unsupported("op " + op)

    def as01(self, x):
        if is_c(x):
            return bool(x) if x in (0, 1) else None
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = x.children()
            if z3.is_int_value(a) and z3.is_int_value(b):
                if a.as_long() == 1 and b.as_long() == 0:
                    return c
                if a.as_long() == 0 and b.as_long() == 1:
                    return z3.Not(c)
        return None

    def fbin(self, st, op, t, x, y):
        x, y = Z(x), Z(y)
        if op == "fdiv":
            self.oblige(st, y != 0, "float-division-by-zero")
        r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
        return self.round(st, r, t.k)

    def round(self, st, r, k):
        """IEEE rounding as an uninterpreted monotone function (trusted): exact on the points used below"""
        r = z3.simplify(r)
        F = Rnd[k]
        v = F(r)
        key = ("rnd", k, r.get_id())
        if key not in st.seen:
            st.seen.add(key)
            st.seen.add(("keep", r))
            # monotone w.r.t. the exactly representable points 0, 1, 1/2, 2 and all earlier rounded terms
            fs = []
            for q in (0, 1, 2):
                fs += [z3.Implies(r <= q, v <= q), z3.Implies(r >= q, v >= q)]
            for (k2, r2, v2) in st.ghost.get("rnd", ()):
                if k2 == k:
                    fs += [z3.Implies(r <= r2, v <= v2), z3.Implies(r2 <= r, v2 <= v)]
            st.ghost["rnd"] = st.ghost.get("rnd", ()) + ((k, r, v),)
            st.fact(z3.And(*fs))
        return v

    def op_fneg(self, st, f, ins):
        f.regs[ins.dst] = z3.simplify(-Z(self.val(st, ins.a[0], ins.a[1])))
        return NEXT

    def op_icmp(self, st, f, ins):
        pred, t, a, b = ins.a
        x, y = self.val(st, t, a), self.val(st, t, b)
        f.regs[ins.dst] = self.icmp(st, pred, t, x, y)
        return NEXT

    def icmp(self, st, pred, t, x, y):
        if isinstance(x, tuple) and not isinstance(x, (Ptr, PtrInt)):
            raise Unsupported("compare ctype")
        if isinstance(x, (Ptr, PtrInt)) or isinstance(y, (Ptr, PtrInt)):
            if not isinstance(x, (Ptr, PtrInt)):
                x = Ptr(0, x)
            if not isinstance(y, (Ptr, PtrInt)):
                y = Ptr(0, y)
            if pred in ("eq", "ne"):
                if is_c(y.o) and y.o == 0 and is_c(y.p) and y.p == 0:
                    e = eq(x.o, 0)
                elif is_c(x.o) and x.o == 0 and is_c(x.p) and x.p == 0:
                    e = eq(y.o, 0)
                else:
                    e = And(eq(x.o, y.o), eq(x.p, y.p))
                e = S(e) if not isinstance(e, bool) else e
                return e if pred == "eq" else Not(e)
            if self.same(st, x.o, y.o) is not True:
                self.oblige(st, eq(x.o, y.o), "pointer-comparison-same-object")
            x, y = x.p, y.p
            pred = "s" + pred[1:]
        if t.k == "int" and t.w == 1:
            x, y = self.tobool(x), self.tobool(y)
            e = Iff(x, y)
            return e if pred == "eq" else Not(e)
        if z3.is_expr(x) and z3.is_bool(x):
            x = ite(x, 1, 0)
        if z3.is_expr(y) and z3.is_bool(y):
            y = ite(y, 1, 0)
        if pred == "eq":
            return eq(x, y)
        if pred == "ne":
            return ne(x, y)
        if pred[0] == "s":
            return {"slt": lt, "sle": le, "sgt": lambda p, q: lt(q, p), "sge": lambda p, q: le(q, p)}[pred](x, y)
        w = t.w
        if is_c(x) and is_c(y):
            x, y = u(x, w), u(y, w)
            return {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]
        if pred in ("ugt", "uge"):
            x, y = y, x
            pred = {"ugt": "ult", "uge": "ule"}[pred]
        xs, ys = self.must(st, le(0, x)), self.must(st, le(0, y))
        if xs and ys:
            return lt(x, y) if pred == "ult" else le(x, y)
        x, y = u(x, w), u(y, w)
        return lt(x, y) if pred == "ult" else le(x, y)

    def op_fcmp(self, st, f, ins):
        pred, t, a, b = ins.a
        x, y = Z(self.val(st, t, a)), Z(self.val(st, t, b))
        p = pred[1:]
        if pred in ("ord",):
            r = True
        elif pred == "uno":
            r = False
        else:
            r = S({"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "le": lambda: x <= y,
                   "gt": lambda: x > y, "ge": lambda: x >= y}[p]())
        f.regs[ins.dst] = r
        return NEXT

    def op_sext(self, st, f, ins):
        t, v, t2 = ins.a
        x = self.val(st, t, v)
        if t.w == 1:
            x = ite(self.tobool(x), -1, 0)
        f.regs[ins.dst] = x
        return NEXT

    def op_zext(self, st, f, ins):
        t, v, t2 = ins.a
        x = self.val(st, t, v)
        if isinstance(x, tuple) and not isinstance(x, (Ptr, PtrInt)) and x[0] == "ctype":
            f.regs[ins.dst] = x
            return NEXT
        if t.w == 1:
            x = ite(self.tobool(x), 1, 0)
        elif not is_c(x):
            if not self.must(st, le(0, x)):
                x = u(x, t.w)
        else:
            x = u(x, t.w)
        f.regs[ins.dst] = x
        return NEXT

    def op_trunc(self, st, f, ins):
        t, v, t2 = ins.a
        x = self.val(st, t, v)
        if t2.w == 1:
            f.regs[ins.dst] = self.tobool(x)
            return NEXT
        if isinstance(x, (PtrInt,)):
            raise Unsupported("trunc of pointer")
        f.regs[ins.dst] = self.wrap(st, x, t2.w, once=False)
        return NEXT

    def op_ptrtoint(self, st, f, ins):
        x = self.val(st, ins.a[0], ins.a[1])
        f.regs[ins.dst] = PtrInt(x.o, x.p)
        return NEXT

    def op_inttoptr(self, st, f, ins):
        x = self.val(st, ins.a[0], ins.a[1])
        if isinstance(x, PtrInt):
            f.regs[ins.dst] = Ptr(x.o, x.p)
        elif is_c(x) and x == 0:
            f.regs[ins.dst] = NULL
        else:
            f.regs[ins.dst] = Ptr(-5000000, x)   # integer smuggled in a pointer (g_slist data etc.)
        return NEXT

    def op_sitofp(self, st, f, ins):
        x = self.val(st, ins.a[0], ins.a[1])
        k = ins.a[2].k
        r = z3.RealVal(x) if is_c(x) else z3.ToReal(x)
        lim = 1 << (24 if k == "f32" else 53)
        if is_c(x) and abs(x) <= lim or self.must(st, And(le(-lim, x), le(x, lim))):
            f.regs[ins.dst] = r
        else:
            f.regs[ins.dst] = self.round(st, r, k)
        return NEXT

    def op_uitofp(self, st, f, ins):
        x = u(self.val(st, ins.a[0], ins.a[1]), ins.a[0].w)
        f.regs[ins.dst] = self.round(st, z3.RealVal(x) if is_c(x) else z3.ToReal(x), ins.a[2].k)
        return NEXT

    def op_fpext(self, st, f, ins):
        f.regs[ins.dst] = self.val(st, ins.a[0], ins.a[1])
        return NEXT

    def op_fptrunc(self, st, f, ins):
        f.regs[ins.dst] = self.round(st, Z(self.val(st, ins.a[0], ins.a[1])), ins.a[2].k)
        return NEXT

    def op_fptosi(self, st, f, ins):
        x = Z(self.val(st, ins.a[0], ins.a[1]))
        r = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        self.oblige(st, rng(r, ins.a[2].w), "float-to-int-range")
        f.regs[ins.dst] = S(r)
        return NEXT

    op_fptoui = op_fptosi

    def op_select(self, st, f, ins):
        c, t, a, b = ins.a
        c = self.tobool(self.val(st, irparse.INTS[1], c))
        x, y = self.val(st, t, a), self.val(st, t, b)
        if isinstance(c, bool):
            f.regs[ins.dst] = x if c else y
        else:
            if z3.is_expr(x) and z3.is_bool(x) or isinstance(x, bool):
                f.regs[ins.dst] = S(z3.If(c, Z(x), Z(y)))
            else:
                f.regs[ins.dst] = ite(c, x, y)
        return NEXT

    def op_phi(self, st, f, ins):
        t, inc = ins.a
        for v, b in inc:
            if b == f.prev:
                f.regs[ins.dst] = self.val(st, t, v)
                return NEXT
        raise Unsupported("phi without predecessor")

    def op_freeze(self, st, f, ins):
        f.regs[ins.dst] = self.val(st, ins.a[0], ins.a[1])
        return NEXT

    def op_and(self, st, f, ins):
        t, a, b, fl = ins.a
        x = self.val(st, t, a)
        y = self.val(st, t, b)
        if isinstance(y, tuple) and not isinstance(y, (Ptr, PtrInt)):
            x, y = y, x
        if isinstance(x, tuple) and not isinstance(x, (Ptr, PtrInt)) and x[0] == "ctype":
            if not is_c(y):
                raise Unsupported("ctype mask")
            c = S(Z(x[1]) / 2) if not is_c(x[1]) else x[1] // 2
            m = y % 65536
            self.oblige(st, And(le(-128, c), le(c, 255)), "ctype-argument-range")
            if m not in CTYPE_BITS:
                raise Unsupported("ctype mask %d" % m)
            f.regs[ins.dst] = ite(CTYPE_BITS[m](c), m, 0)
            return NEXT
        f.regs[ins.dst] = self.binop(st, "and", t, x, y, fl)
        return NEXT

    def op_va_arg(self, st, f, ins):
        raise Unsupported("va_arg")

    def op_extractvalue(self, st, f, ins):
        raise Unsupported("extractvalue")

    # ------------------------------------------------------------------ calls
    def op_call(self, st, f, ins):
        rt, cal, args = ins.a
        if cal[0] == "asm":
            raise Unsupported("inline asm")
        vals = []
        if cal[0] == "glob":
            name = cal[1]
        else:
            fp = self.val(st, PTR, cal)
            o = self.concretize(st, fp.o)
            e = self.prog.gobj.get(o) if is_c(o) else None
            if e is None or e[0] != "fn":
                # contract-provided callbacks
                cb = self.opts.get("callbacks", {}).get("*")
                if cb is not None:
                    vals = [self.val(st, t, v) for t, v in args]
                    return self.finish_trusted(st, ins, cb(self, st, fp, vals, ins))
                if not is_c(o):
                    # case split over the possible targets of an ite
                    raise Unsupported("indirect call through unknown pointer")
                if o == 0:
                    self.oblige(st, False, "memory-safety/null-function-pointer")
                    return None
                raise Unsupported("indirect call target")
            name = e[1]
            fn = e[2]
            vals = [self.val(st, t, v) for t, v in args]
            return self.do_call(st, ins, name, fn, vals, rt)
        if name.startswith("llvm."):
            return self.intrinsic(st, f, ins, name, args)
        vals = [self.val(st, t, v) for t, v in args]
        return self.do_call(st, ins, name, self.prog.find(name, f.fn.module), vals, rt)

    def do_call(self, st, ins, name, fn, vals, rt):
        f = st.top
        c = self.contracts.get(name)
        if c is not None and not (self.opts.get("inline") and name in self.opts["inline"]):
            self.used_contracts.add(name)
            return self.call_contract(st, ins, name, c, vals, rt)
        t = self.opts.get("trusted", {}).get(name) or self.trusted.get(name)
        if t is not None:
            self.used_trusted.add(name)
            if self.dryloops and name in ALLOCATORS:
                for d in self.dryloops:
                    d.alloc = True
            r = t(self, st, vals, ins)
            return self.finish_trusted(st, ins, r)
        if fn is None:
            raise Unsupported("no body and no contract for %s" % name)
        if any(fr.fn is fn for fr in st.frames):
            raise Unsupported("recursive call to %s without a contract" % name)
        self.inlined.add(name)
        self.new_frame(st, fn, vals, ins.dst)
        return JUMPED

    def finish_trusted(self, st, ins, r):
        if isinstance(r, Stop):
            return None
        if isinstance(r, Cases):
            outs = []
            for cond, action in r.items:
                if cond is not True and not self.feasible(st, cond):
                    continue
                s = st.copy()
                s.fact(cond)
                v = action(s)
                if isinstance(v, Stop):
                    continue
                if ins.dst is not None:
                    s.top.regs[ins.dst] = v
                s.top.idx += 1
                outs.append(s)
            return outs
        if ins.dst is not None:
            st.top.regs[ins.dst] = r
        return NEXT

    def intrinsic(self, st, f, ins, name, args):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            d, s, n = [self.val(st, t, v) for t, v in args[:3]]
            self.memcpy(st, d, s, n)
            return NEXT
        if name.startswith("llvm.memset"):
            d, v, n = [self.val(st, t, v) for t, v in args[:3]]
            if not (is_c(v) and v == 0):
                raise Unsupported("memset nonzero")
            self.memset0(st, d, n)
            return NEXT
        if name.startswith("llvm.va_start"):
            self.va_start(st, f, self.val(st, args[0][0], args[0][1]))
            return NEXT
        if name.startswith(("llvm.va_end", "llvm.lifetime", "llvm.stacksave", "llvm.stackrestore",
                            "llvm.dbg", "llvm.assume")):
            if ins.dst:
                f.regs[ins.dst] = NULL
            return NEXT
        if name.startswith("llvm.fmuladd"):
            x, y, z = [Z(self.val(st, t, v)) for t, v in args[:3]]
            f.regs[ins.dst] = self.round(st, x * y + z, args[0][0].k)
            return NEXT
        raise Unsupported("intrinsic " + name)

    def va_start(self, st, f, ap):
        """System V x86-64: the variadic arguments (pointers, from the contract) in the register save area and on the stack"""
        va = self.k_main.data.get("va") if len(st.frames) == 1 else None
        if va is None:
            return
        nf = len(f.fn.params)
        ids = []
        for size in (176, 8 * max(1, len(va))):
            ids.append(self.alloc(st, size))
        for j, v in enumerate(va):
            o, off = (ids[0], 8 * (nf + j)) if nf + j < 6 else (ids[1], 8 * (nf + j - 6))
            st.mem["ptr"] = Store(st.mem["ptr"], o, off, v)
        self.k_main.data["va_ids"] = ids
        self.k_main.data["va_ap"] = ap
        for cls, off, v in (("i32", 0, 8 * nf), ("i32", 4, 48), ("ptr", 8, Ptr(ids[1], 0)), ("ptr", 16, Ptr(ids[0], 0))):
            st.mem[cls] = Store(st.mem[cls], ap.o, add(ap.p, off), v)

    def memcpy(self, st, d, s, n):
        if self.same(st, n, 0) is True:
            return
        self.check_access(st, d, n, "memcpy-destination")
        self.check_access(st, s, n, "memcpy-source")
        for c in CLASSES:
            self.frame_region(st, c, d.o, d.p, add(d.p, n))
            st.mem[c] = Copy(st.mem[c], d.o, d.p, add(d.p, n), st.mem[c], s.o, s.p)

    def memset0(self, st, d, n):
        self.check_access(st, d, n, "memset")
        for c in CLASSES:
            self.frame_region(st, c, d.o, d.p, add(d.p, n))
            st.mem[c] = Fill(st.mem[c], d.o, d.p, add(d.p, n), NULL if c == "ptr" else (z3.RealVal(0) if c[0] == "f" else 0))

    def frame_region(self, st, cls, o, lo, hi):
        for d in self.dryloops:
            d.writes.append((cls, o, None, st))
        if self.modset is None or self.silent or (is_c(o) and o < 0):
            return
        j = fresh_int("fr")
        c = Or(lt(self.entry_wm, o), *[r.has(cls, o, j) for r in self.modset], *[f(o) for f in self.consumed])
        self.oblige(st, Implies(And(le(lo, j), lt(j, hi)), c), "frame/write-outside-modifies")

    def alloc(self, st, size, zero=False):
        """fresh object; returns its id"""
        st.wm = S(Z(st.wm) + 1)
        o = st.wm
        for d in self.dryloops:
            d.alloc = True
        st.al = AAlloc(st.al, o)
        st.fact(Size(Z(o)) == Z(size))
        for c in CLASSES:
            if zero:
                st.mem[c] = Fill(st.mem[c], o, 0, size, NULL if c == "ptr" else (z3.RealVal(0) if c[0] == "f" else 0))
        if not zero:
            # uninitialised: nothing was ever stored there; base reads are unconstrained
            pass
        return o

    def free(self, st, ptr):
        if is_c(ptr.o) and ptr.o == 0:
            return
        c = Or(eq(ptr.o, 0), And(alive(st.al, ptr.o), eq(ptr.p, 0)))
        if is_c(ptr.o) and ptr.o < 0:
            c = False
        self.oblige(st, c, "memory-safety/free-of-invalid-pointer")
        for d in self.dryloops:
            if not is_c(ptr.o) and d.entry is not None and self.must(st, lt(d.entry.wm, ptr.o)):
                d.alloc = True          # allocated inside the loop
                continue
            d.frees.append(ptr.o)
        if self.modset is not None and not self.silent:
            ok = Or(eq(ptr.o, 0), lt(self.entry_wm, ptr.o), *[fr(ptr.o) for fr in (self.freeset or [])])
            self.oblige(st, ok, "frame/free-outside-frees")
        o = ptr.o
        st.al = AFree(st.al, lambda x, o=o: And(eq(x, o), ne(o, 0)))

    # ------------------------------------------------------------------ contracts at call sites
    def call_contract(self, st, ins, name, c, vals, rt):
        outs = []
        pend = [()]
        base = st
        n0 = sym._ctr.high
        saved = self.memo_start(st)
        try:
            while pend:
                dec = pend.pop(0)
                s = base.copy()
                sym._ctr.v = n0
                k = K(self, s, "call", name, vals, rt, dec)
                nobs = len(self.obs)
                try:
                    k.run_call(c)
                except NeedFork as nf:
                    del self.obs[nobs:]
                    cond = nf.cond
                    cond = S(cond) if not isinstance(cond, bool) else cond
                    for b in (True, False):
                        pend.append(tuple(k.dec) + ((b, None),))
                    continue
                except Infeasible:
                    del self.obs[nobs:]
                    continue
                if k.dead:
                    continue
                if ins.dst is not None:
                    s.top.regs[ins.dst] = k.result
                s.top.idx += 1
                outs.append(s)
        finally:
            sym._ctr.v = sym._ctr.high
            self.memo, self.memo_base, self.memo_refs = saved
        if VACUITY and not self.dryloops and not any(self.feasible(s) for s in outs) and self.feasible(base):
            print("  VACUOUS call of", name, "in", self.fnname, ins.dst)
        return outs

    # ------------------------------------------------------------------ loops
    def loop_locals(self, f, blocks):
        out = []
        for b in blocks:
            for ins in f.fn.blocks[b]:
                if ins.op == "store" and ins.a[2][0] == "reg" and ins.a[2][1] in f.loc:
                    n = ins.a[2][1]
                    if n not in [x[0] for x in out]:
                        out.append((n, ins.a[0]))
        # variables declared (alloca is in the entry block) - only those with a value on entry matter
        return out

    def havoc_loop(self, st, L, W):
        s = st.copy()
        f = s.top
        L.mark = next(_ctr)
        L.cur = {}
        wm0 = s.wm
        if L.alloc:
            s.wm = fresh_int("wm")
            s.fact(s.wm >= Z(wm0))
        for n, t in L.locals:
            old = f.loc.get(n)
            cls = cls_of(t)
            v = self.fresh_val(s, cls, "L." + n.replace(".addr", ""))
            if n in L.objfix:
                v = Ptr(L.objfix[n], v.p)
            f.loc[n] = v
        cells = {}
        for cls, items in W.items():
            if not items:
                continue
            cellw = [(o, p) for (k, o, p) in items if k == "cell"]
            regs = [(k, o) for (k, o, p) in items if k != "cell"]
            if regs:
                nb = Base(cls, s.wm)

                def cond(oo, pp, regs=regs, cls=cls, wm0=wm0, s=s):
                    cs = []
                    for k, o in regs:
                        if k == "obj":
                            cs.append(eq(oo, o))
                        elif k == "fresh":
                            cs.append(lt(wm0, oo))
                        elif k == "list":
                            g, p = o
                            c = z3.And(0 <= g.pos(oo), g.pos(oo) < g.n, g.at(g.pos(oo)) == Z(oo))
                            cs.append(And(c, True if p is None or pp is None else eq(pp, p)))
                        elif k == "any":
                            # anything the function may modify
                            if self.modset is None:
                                cs.append(lt(0, oo))
                            else:
                                cs.append(lt(self.entry_wm, oo))
                                for r in self.modset:
                                    if r.cls in ("*", cls):
                                        cs.append(r.has(cls, oo, pp) if pp is not None else r.touches(oo))
                                cs += [f(oo) for f in self.consumed]
                    return Or(*cs)
                s.mem[cls] = Havoc(s.mem[cls], cond, nb, lambda oo, cond=cond: cond(oo, None))
            for o, p in cellw:
                v = self.fresh_val(s, cls, "C")
                s.mem[cls] = Store(s.mem[cls], o, p, v)
        if L.frees_seen or L.alloc:
            nb = ABase()
            if L.frees_any:
                fs = None
                s.al = AHav(s.al, lambda oo: True, nb)
            else:
                frees = list(L.frees_inv)

                def acond(oo, wm0=wm0, frees=frees):
                    return Or(lt(wm0, oo), *[eq(oo, x) for x in frees])
                s.al = AHav(s.al, acond, nb)
        for g in L.ghostw:
            old = s.ghost.get(g)
            if old is not None and z3.is_expr(old):
                s.ghost[g] = z3.FreshConst(old.sort(), "G")
        s.valid = set()
        L.it = fresh_int("it")
        s.fact(L.it >= 0)
        s.ghost[("loopit", L.depth)] = s.ghost.get(("loopit", L.depth), ()) + (L.it,)
        out = [s]
        # a pointer variable may also point into a local or global object: one state per such object
        for n, objs in sorted(L.negs.items()):
            if n in L.objfix:
                continue
            more = []
            for t in out:
                for o in sorted(objs):
                    t2 = t.copy()
                    t2.top.loc[n] = Ptr(o, fresh_int("L." + n + ".p"))
                    more.append(t2)
            out += more
        return out

    def note_object(self, st, L, n, v, learn):
        """the havocked state covers this value of pointer variable n"""
        if not isinstance(v, Ptr):
            return True
        if is_c(v.o):
            if v.o >= 0 or v.o in L.negs.get(n, ()):
                return True
            if not learn:
                return False
            L.negs.setdefault(n, set()).add(v.o)
            L.negs_changed = True
            return True
        if self.must(st, le(0, v.o), 1500):
            return True
        vals = const_leaves(v.o)
        if vals is not None and learn:
            for o in vals:
                if o < 0:
                    if o not in L.negs.setdefault(n, set()):
                        L.negs[n].add(o)
                        L.negs_changed = True
            return True
        if vals is not None and all(o >= 0 or o in L.negs.get(n, ()) for o in vals):
            return True
        raise Unsupported("pointer variable %s of a loop may point to an unknown object" % n)

    def enter_loop(self, st, header, blocks):
        f = st.top
        L = LoopCtx(f.fn, header, blocks)
        L.entry = st.copy()
        L.depth = len(st.frames)
        L.locals = self.loop_locals(f, blocks)
        L.frees_seen = False
        L.frees_any = False
        L.frees_inv = []
        L.alloc = False
        L.line = self.cur_line(st)
        L.engine = self
        L.negs = {}
        # pointer variables that keep pointing into the object they point to on entry: assumed of all, then
        # withdrawn for every variable for which some path round the loop does not preserve it
        L.objfix = {}
        for n, t in L.locals:
            if cls_of(t) == "ptr" and isinstance(f.loc.get(n), Ptr):
                L.objfix[n] = f.loc[n].o
        W = {c: [] for c in CLASSES}
        # -------- dry runs: what does the body write?
        self.silent += 1
        self.dryloops.append(L)
        try:
            for _ in range(8):
                changed = False
                L.writes, L.frees = [], []
                al0 = L.alloc
                g0 = set(L.ghostw)
                L.negs_changed = False
                ss = self.havoc_loop(st, L, W)
                s = ss[0]
                L.mode = "dry"
                for t in ss:
                    t.top.loops.append(L)
                s = s.copy()
                self.explore(ss)
                for cls, o, p, wst in L.writes:
                    k = self.generalise(s, L, cls, o, p, wst)
                    if k is None:
                        continue
                    if not any(self.covers_w(x, k) for x in W[cls]):
                        W[cls] = [x for x in W[cls] if not self.covers_w(k, x)] + [k]
                        changed = True
                for o in L.frees:
                    if not L.frees_seen:
                        L.frees_seen = True
                        changed = True
                    if o is None:
                        if not L.frees_any:
                            L.frees_any = changed = True
                    elif max_fresh(o) > L.mark:
                        if not self.must(s, lt(L.entry.wm, o)) and not L.frees_any:
                            # freshly allocated inside the loop is covered; anything else -> all
                            L.frees_any = True
                            changed = True
                    elif not any(eq(o, x) is True for x in L.frees_inv):
                        L.frees_inv.append(o)
                        changed = True
                if L.alloc != al0 or g0 != L.ghostw or L.negs_changed:
                    changed = True
                if not changed:
                    break
            else:
                raise Unsupported("loop write set does not stabilise")
        finally:
            self.dryloops.pop()
            self.silent -= 1
        L.W = W
        # -------- Houdini
        cands = self.candidates(st, L) if not (self.dryloops and self.opts.get("fast_dry")) else []
        self.silent += 1
        try:
            # initialisation
            e = L.entry
            L.it = 0
            good = []
            for name, fn in cands:
                try:
                    c = fn(LV(self, L, e, e))
                except Skip:
                    continue
                if self.must2(e, c, 1500):
                    good.append((name, fn))
                elif DEBUG:
                    print("  init-drop", L.line, name)
            cands = good
            for rnd in range(12):
                ss = self.havoc_loop(st, L, W)
                L.mode = "houdini"
                alive_c = []
                for name, fn in cands:
                    try:
                        cs = [fn(LV(self, L, L.entry, s)) for s in ss]
                    except Skip:
                        continue
                    for s, c in zip(ss, cs):
                        s.fact(S(c) if not isinstance(c, bool) else c)
                    alive_c.append((name, fn))
                cands = alive_c
                L.cands = list(cands)
                L.dropped = set()
                for s in ss:
                    s.top.loops.append(L)
                self.explore(ss)
                if not L.dropped:
                    break
                cands = [c for c in cands if c[0] not in L.dropped]
            else:
                raise Unsupported("Houdini does not converge")
        finally:
            self.silent -= 1
        # -------- final
        ss = self.havoc_loop(st, L, W)
        for s in ss:
            lv = LV(self, L, L.entry, s)
            for name, fn in cands:
                c = fn(lv)
                s.fact(S(c) if not isinstance(c, bool) else c)
        for name, fn in cands:
            if not self.silent:
                self.obs.append(Ob("loop-invariant/%s" % name, self.fnname, L.line, "ok", 0.0, "z3-houdini"))
        L.mode = "final"
        L.cands = cands
        if not self.silent:
            self.loop_info.append((self.fnname, L.line, [n for n, _ in cands]))
        for s in ss:
            s.top.loops.append(L)
            s.trace.append("loop@%s" % L.line)
        ok = [s for s in ss if self.feasible(s)]
        if not ok and self.feasible(L.entry):
            raise Unsupported("contradictory state at a loop head")
        return ss[0] if len(ss) == 1 else ok

    def generalise(self, s, L, cls, o, p, st):
        if is_c(o) and o < 0 and -o <= 900000:
            # local object: was it created before the loop?
            if o not in L.entry.sizes:
                return None
        if not is_c(o) and max_fresh(o) > L.mark:
            if self.must(s, lt(L.entry.wm, o)):
                return ("fresh", None, None)
            for g in getattr(self.k_main, "lists", []):
                # an element of a list
                if self.must(st, z3.And(0 <= g.pos(o), g.pos(o) < g.n, g.at(g.pos(o)) == Z(o))):
                    return ("list", (g, p if is_c(p) else None), None)
            return ("any", None, None)
        if p is None:
            return ("obj", o, None)
        if is_c(p) or max_fresh(p) <= L.mark:
            return ("cell", o, p)
        return ("obj", o, None)

    def covers_w(self, a, b):
        if a[0] == b[0]:
            if a[0] == "cell":
                return eq(a[1], b[1]) is True and eq(a[2], b[2]) is True
            if a[0] == "obj":
                return eq(a[1], b[1]) is True
            if a[0] == "list":
                return a[1][0] is b[1][0] and (a[1][1] is None or a[1][1] == b[1][1])
            return True
        if a[0] == "any":
            return b[0] == "list"
        if a[0] == "obj" and b[0] == "cell":
            return eq(a[1], b[1]) is True
        return False

    def back_edge(self, st, L):
        if L.mode == "final":
            return
        for n, o in sorted(L.objfix.items()):
            v = st.top.loc.get(n)
            if isinstance(v, Ptr) and eq(v.o, o) is True:
                continue
            if L.mode != "dry":
                raise Unsupported("pointer variable %s of a loop may point to an unknown object" % n)
            del L.objfix[n]
            L.negs_changed = True
            if isinstance(L.entry.top.loc.get(n), Ptr):
                self.note_object(L.entry, L, n, L.entry.top.loc[n], True)
        for n, t in L.locals:
            if cls_of(t) == "ptr" and n in st.top.loc and n not in L.objfix:
                if not self.note_object(st, L, n, st.top.loc[n], L.mode == "dry"):
                    raise Unsupported("pointer variable %s of a loop may point to an unknown object" % n)
        if L.mode == "dry":
            return
        lv = LV(self, L, L.entry, st, it=S(L.it + 1))
        for name, fn in L.cands:
            if name in L.dropped:
                continue
            try:
                c = fn(lv)
            except Skip:
                L.dropped.add(name)
                continue
            if not self.must2(st, c, 1500):
                L.dropped.add(name)
                if DEBUG:
                    print("  preserve-drop", L.line, name)
                    if os.environ.get("DUMP") and os.environ["DUMP"] in name:
                        ss = z3.Solver()
                        for f in st.facts: ss.add(f)
                        ss.add(Z(Not(c)))
                        open("/tmp/dump.smt2", "w").write(ss.to_smt2()); ss.set("timeout", 5000); print("   ->", ss.check(), str(ss.model())[:3000] if str(ss.check())=="sat" else "")
                        print("   DUMPED", [str(f)[:200] for f in st.facts[-12:]])

    def candidates(self, st, L):
        out = []
        seen = set()
        import templates
        for gen in [templates.default] + list(self.loop_specs):
            for name, fn in gen(self, L):
                if name not in seen:
                    seen.add(name)
                    out.append((name, fn))
        return out


DEBUG = bool(os.environ.get('INVDEBUG'))
VACUITY = bool(os.environ.get('VACUITY'))


class Skip(Exception):
    pass


def const_leaves(o):
    """the constants an if-then-else term chooses from, or None"""
    if is_c(o):
        return [o]
    if z3.is_int_value(o):
        return [o.as_long()]
    if z3.is_app_of(o, z3.Z3_OP_ITE):
        a, b = const_leaves(o.arg(1)), const_leaves(o.arg(2))
        return None if a is None or b is None else a + b
    return None


class LV:
    """view of a loop state for invariant templates: entry state and current state"""
    def __init__(self, eng, L, e, s, it=None):
        self.eng, self.L, self.e, self.s = eng, L, e, s
        self.it = it if it is not None else L.it
        self.k = eng.k_main

    def var(self, n):
        v = self.s.frames[self.L.depth - 1].loc.get(n)
        if v is UNDEF or v is None:
            raise Skip()
        return v

    def var0(self, n):
        v = self.e.frames[self.L.depth - 1].loc.get(n)
        if v is UNDEF or v is None:
            raise Skip()
        return v

    def cell(self, cls, o, p):
        return self.eng.read(self.s, cls, o, p)

    def cell0(self, cls, o, p):
        return self.eng.read(self.e, cls, o, p)


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Infeasible(Exception):
    pass


class Stop:
    pass


class Cases:
    def __init__(self, *items):
        self.items = items


class StrNode:
    """object o holds a NUL-terminated string given by length, rank and character function"""
    def __init__(self, prev, o, length, rank, char):
        self.prev, self.o, self.length, self.rank, self.charfn = prev, o, length, rank, char

    def char(self, eng, st, p):
        if eng.same(st, p, self.length) is True:
            return 0
        c = self.charfn(eng, st, p)
        return ite(eq(p, self.length), 0, c)


NEXT = object()
JUMPED = object()


class _Undef:
    def __repr__(self):
        return "UNDEF"

    def __deepcopy__(self, m):
        return self


UNDEF = _Undef()
CTYPE_OBJ = -3000001
InSet = z3.Function("InSet", R, I, B)
BvOr = {w: z3.Function("BvOr%d" % w, I, I, I) for w in (8, 16, 32, 64)}
Rnd = {"f32": z3.Function("RndF", R, R), "f64": z3.Function("RndD", R, R)}
ALLOCATORS = set()


# --------------------------------------------------------------------------- contract context
import itertools
_mayfree = sym._ctr


class K:
    """what a contract sees.  mode 'verify': requires are assumed, ensures are obligations.
    mode 'call': requires are obligations, ensures are assumed."""

    def __init__(self, eng, st, mode, name, vals, rt, decisions=()):
        self.eng, self.st, self.mode, self.name, self.vals, self.rt = eng, st, mode, name, vals, rt
        self.dec = list(decisions)
        self.di = 0
        self.mods = []
        self.frees = []
        self.consumed = []
        self.allocs = False
        self.result = None
        self.dead = False
        self.post = None
        self.data = {}
        self.terms = []
        self.lists = []
        self.freed_sets = []
        self.bounds = []
        self.modany = False
        self.entry = None

    # ---- running
    def run_call(self, c):
        eng, st = self.eng, self.st
        self.entry = st.copy()
        self.post = c(self, *self.vals)
        # havoc the frame
        pre_mem = dict(st.mem)
        wm0 = self.wm0 = st.wm
        if self.allocs:
            st.wm = fresh_int("wm")
            st.fact(st.wm >= Z(wm0))
            for d in eng.dryloops:
                d.alloc = True
            nb = ABase()
            st.al = AHav(st.al, lambda o, wm0=wm0: lt(wm0, o), nb)
            for cls in CLASSES:
                b = Base(cls, st.wm)
                st.mem[cls] = Havoc(st.mem[cls], lambda o, p, wm0=wm0: lt(wm0, o), b, lambda o, wm0=wm0: lt(wm0, o))
        for r in self.mods:
            self.havoc_region(r)
        for cond in self.frees:
            for d in eng.dryloops:
                d.frees.append(None)
            if eng.modset is not None and not eng.silent:
                x = fresh_int("fx")
                ok = Or(eq(x, 0), lt(eng.entry_wm, x), Not(alive(st.al, x)), *[fr(x) for fr in (eng.freeset or [])])
                eng.oblige(st, Implies(cond(x), ok), "frame/callee-frees-outside-frees")
            if any(cond is c for c in self.consumed):
                st.al = AFree(st.al, cond)
            else:
                fb = z3.Function("mayfree!%d" % next(_mayfree), I, z3.BoolSort())
                st.al = AFree(st.al, lambda o, cond=cond, fb=fb: And(cond(o), fb(Z(o))))
        rt = self.rt
        if rt.k == "void":
            self.result = None
        elif rt.k == "int" and rt.w == 1:
            self.result = fresh_bool("ret." + self.name)
        elif rt.k == "int":
            self.result = fresh_int("ret." + self.name)
            st.fact(rng(self.result, rt.w))
        elif rt.k == "ptr":
            self.result = fresh_ptr("ret." + self.name)
            st.fact(z3.And(self.result.o <= Z(st.wm), z3.Implies(self.result.o == 0, self.result.p == 0)))
        elif rt.k in ("f32", "f64"):
            self.result = fresh_real("ret." + self.name)
        else:
            raise Unsupported("return type")
        if self.post:
            self.post(self.result)

    def havoc_region(self, r):
        eng, st = self.eng, self.st
        clss = CLASSES if r.cls == "*" else [r.cls]
        for cls in clss:
            if r.cond is None and r.lo is not None and is_c(sub(r.hi, r.lo)) and sub(r.hi, r.lo) == CLS_W[cls] and r.cls != "*":
                v = eng.fresh_val(st, cls, "H." + self.name)
                eng.frame_check(st, cls, r.o, r.lo)
                st.mem[cls] = Store(st.mem[cls], r.o, r.lo, v)
                continue
            for d in eng.dryloops:
                d.writes.append((cls, r.o if r.cond is None else fresh_int("anyobj"), None, st))
            if eng.modset is not None and not eng.silent and not (r.cond is None and is_c(r.o) and r.o < 0):
                j, oo = fresh_int("fr"), fresh_int("fo")
                c = Or(lt(eng.entry_wm, oo), *[m.has(cls, oo, j) for m in eng.modset], *[f(oo) for f in eng.consumed])
                eng.oblige(st, Implies(r.has(cls, oo, j), c), "frame/callee-writes-outside-modifies")
            b = Base(cls, st.wm)
            st.mem[cls] = Havoc(st.mem[cls], lambda o, p, r=r, cls=cls: r.has(cls, o, p), b, r.touches)

    # ---- clauses
    def sets(self, ptr, val, name="ensures"):
        """the pointer cell, which the function may modify, has this value afterwards"""
        if self.mode == "verify":
            self.ensures(eq(self.ld("ptr", ptr), val), name)
        else:
            self.st.mem["ptr"] = Store(self.st.mem["ptr"], ptr.o, ptr.p, val)

    def requires(self, c, name="requires"):
        if self.mode == "verify":
            self.st.fact(S(c) if not isinstance(c, bool) else c)
        else:
            self.eng.oblige(self.st, c, "precondition of %s/%s" % (self.name, name))

    def ensures(self, c, name="ensures"):
        if self.mode == "verify":
            self.eng.oblige(self.st, c, "ensures/" + name)
        else:
            self.st.fact(S(c) if not isinstance(c, bool) else c)

    def lemma(self, c, name):
        """a formula that is valid on its own; proved before it is used"""
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(z3.Not(Z(c)))
        r = s.check()
        if not self.eng.silent:
            self.eng.obs.append(Ob("lemma/" + name, self.eng.fnname, 0, "ok" if r == z3.unsat else "fail", 0.0, "z3"))
        if r == z3.unsat:
            self.st.fact(c)

    def assume(self, c, why):
        self.eng.assumptions.add(why)
        self.st.fact(c)

    def modifies(self, cls, ptr, n=None):
        """n bytes at ptr in memory class cls ('*': all classes); n=None: whole object"""
        if n is None:
            self.mods.append(Region(cls, ptr.o, None, None))
        else:
            self.mods.append(Region(cls, ptr.o, ptr.p, add(ptr.p, n)))

    def modifies_if(self, cls, cond):
        self.mods.append(Region(cls, None, None, None, cond))

    def may_free(self, cond):
        self.frees.append(cond)

    def frees_all(self, cond):
        """every object in the set is freed (those that are live); their contents may be written before"""
        self.frees.append(cond)
        self.consumed.append(cond)

    def may_alloc(self):
        self.allocs = True

    def case(self, cond):
        """case split of a contract; forks"""
        cond = S(cond) if not isinstance(cond, bool) else cond
        if isinstance(cond, bool):
            return cond
        if self.di < len(self.dec):
            b, n = self.dec[self.di]
            if n is None:
                self.dec[self.di] = (b, sym._ctr.high)
            sym._ctr.v = self.dec[self.di][1]
            self.di += 1
            c = cond if b else Not(cond)
            if not self.eng.feasible(self.st, c):
                raise Infeasible()
            self.st.fact(S(c))
            return b
        if self.eng.must(self.st, cond):
            return True
        if self.eng.must(self.st, Not(cond)):
            return False
        raise NeedFork(cond)

    # ---- access
    def ld(self, cls, ptr, off=0):
        return self.eng.read(self.st, cls, ptr.o, add(ptr.p, off))

    def struct(self, sname):
        s = self.eng.prog.structs.get(sname)
        if s is None:
            raise Unsupported("struct %s not found" % sname)
        return s

    def fld(self, ptr, sname, field, st=None):
        off, size, kind, signed, tn = self.struct(sname)[1][field]
        cls = fcls(size, kind)
        v = self.eng.read(st or self.st, cls, ptr.o, add(ptr.p, off))
        if kind == "bool":
            return self.eng.tobool(v)
        return v

    def fldu(self, ptr, sname, field, st=None):
        off, size, kind, signed, tn = self.struct(sname)[1][field]
        v = self.fld(ptr, sname, field, st)
        return v if signed or kind != "int" else u(v, 8 * size)

    def foff(self, sname, field):
        off, size, kind, signed, tn = self.struct(sname)[1][field]
        return off, fcls(size, kind)

    def sizeof(self, sname):
        return self.struct(sname)[0]

    def valid(self, ptr, n):
        return self.eng.valid_cond(self.st, ptr, n)

    def valid_str(self, ptr):
        return self.eng.valid_string(self.st, ptr)

    def nul(self, ptr):
        return self.eng.nul(self.st, ptr.o, ptr.p)

    def ch(self, ptr, i=0):
        return self.eng.char(self.st, ptr, i)

    def chq(self, ptr, i, chain=None):
        return self.eng.char_q(self.st, ptr, i, chain)

    def rank(self, ptr):
        return self.eng.rank(self.st, ptr)

    def rank0(self, ptr):
        return self.eng.rank0(self.st, ptr)

    def inset(self, setp, c):
        return self.eng.inset(self.st, setp, c)

    def entry_ld(self, cls, ptr, off=0):
        return self.eng.read(self.entry, cls, ptr.o, add(ptr.p, off))

    def newstr(self, ptr, length, rank, char, name="new string"):
        """ptr is a freshly allocated string of the given length, content rank and characters (char: bound index -> term)"""
        st, eng = self.st, self.eng
        if self.mode == "verify":
            eng.oblige(st, And(lt(eng.entry_wm, ptr.o), eq(ptr.p, 0), alive(st.al, ptr.o)), "ensures/%s is fresh" % name)
            eng.oblige(st, eng.valid_string(st, ptr), "ensures/%s is NUL-terminated" % name)
            eng.oblige(st, eq(eng.nul(st, ptr.o, 0), length), "ensures/%s has the right length" % name)
            if rank is not None:
                eng.oblige(st, eng.rank(st, ptr) == rank, "ensures/%s has the right content" % name)
            if char is not None:
                j = fresh_int("j")
                st2 = st
                eng.oblige(st2, Implies(And(le(0, j), lt(j, length)), Z(eng.char_q(st2, ptr, j)) == Z(char(j))),
                           "ensures/%s has the right characters" % name)
            return ptr
        o = self.is_fresh(ptr, add(length, 1))
        r = rank if rank is not None else fresh_real("rank")
        if rank is None:
            st.fact(z3.And(r >= 1, r < 2, (r == 1) == Z(eq(length, 0))))
        if char is None:
            f = z3.Function("chr!%d" % next(_ctr), I, I)
            cf = lambda e, s, p: f(Z(p))
        else:
            cf = lambda e, s, p: char(p)
        st.mem["i8"] = StrNode(st.mem["i8"], o, length, r, cf)
        return Ptr(o, 0)

    def is_fresh(self, ptr, size):
        """call mode: ptr is one of the objects the callee allocated (distinctness is up to the contract)"""
        if not self.allocs:
            raise Unsupported("contract of %s returns a fresh object without may_alloc" % self.name)
        st = self.st
        st.fact(And(lt(self.wm0, ptr.o), le(ptr.o, st.wm), eq(ptr.p, 0), alive(st.al, ptr.o)))
        if size is not None:
            st.fact(eq(Size(Z(ptr.o)), size))
        return ptr.o

    def fresh(self, ptr, size=None, name="result-is-fresh"):
        """ptr is a newly allocated object"""
        st, eng = self.st, self.eng
        if self.mode == "verify":
            eng.oblige(st, And(lt(eng.entry_wm, ptr.o), eq(ptr.p, 0), alive(st.al, ptr.o),
                               eq(Size(Z(ptr.o)), size) if size is not None else True), "ensures/" + name)
            return ptr
        o = self.is_fresh(ptr, size)
        return Ptr(o, 0)


def fcls(size, kind):
    if kind == "ptr":
        return "ptr"
    if kind == "float":
        return "f32" if size == 4 else "f64"
    return {1: "i8", 2: "i16", 4: "i32", 8: "i64"}[size]


# --------------------------------------------------------------------------- driver for one function
def verify(prog, contracts, trusted, name, opts=None, loop_specs=(), spec=None, fn=None):
    """prove the body of `name` against its contract; returns a result dict"""
    t0 = time.time()
    cs = dict(contracts)
    spec = spec or cs.get(name)
    eng = Engine(prog, cs, trusted, opts)
    # the body itself is executed, recursive calls use the contract
    eng.fnname = name
    eng.loop_specs = loop_specs
    res = {"fn": name, "obs": eng.obs, "status": "ok", "error": None}
    fn = fn or prog.find(name) or next((m.fns[name] for m in prog.mods.values() if name in m.fns), None)
    if fn is None:
        res["status"] = "missing"
        res["error"] = "function %s not found in /repo's sources" % name
        return res
    try:
        st = State()
        st.frames = []
        st.mem = {}
        A0 = z3.Int("A0")
        st.facts = []
        st.wm = A0
        for c in CLASSES:
            st.mem[c] = Base(c, A0)
        st.al = ABase()
        st.seen = set()
        st.valid = set()
        st.ghost = {}
        st.trace = []
        st.sizes = {}
        st.writes = None
        st.nloc = 0
        st.fact(A0 >= 1)
        args = []
        for t, n in fn.params:
            if t.k == "int" and t.w == 1:
                args.append(fresh_bool("arg." + n))
            elif t.k in ("f32", "f64"):
                args.append(fresh_real("arg." + n))
            else:
                args.append(eng.fresh_val(st, cls_of(t), "arg." + n))
        k = K(eng, st, "verify", name, args, fn.ret)
        k.entry = st
        eng.k_main = k
        eng.entry_wm = A0
        # the preconditions are evaluated in a state that has a (dummy) frame for line numbers
        eng.new_frame(st, fn, args, None)
        pend = [()]
        pres = []
        while pend:
            dec = pend.pop(0)
            s2 = st.copy()
            kk = K(eng, s2, "verify", name, args, fn.ret, dec)
            kk.entry = s2.copy()
            try:
                post = spec(kk, *args)
            except NeedFork:
                pend += [tuple(kk.dec) + ((True, None),), tuple(kk.dec) + ((False, None),)]
                continue
            except Infeasible:
                continue
            pres.append((kk, s2, post))
        ncover = 0
        for kk, s2, post in pres:
            # vacuity: the precondition must be satisfiable
            r, _ = eng.solver.check(s2.facts, [], 5000)
            if r == z3.unsat:
                res["status"] = "vacuous"
                res["error"] = "contradictory precondition"
                return res
            kk.entry = s2.copy()
            eng.k_main = kk
            eng.modset = kk.mods if not kk.modany else None
            eng.freeset = kk.frees
            eng.consumed = kk.consumed
            rets = [0]

            def on_ret(s, val, kk=kk, post=post, rets=rets):
                rets[0] += 1
                for cond in kk.consumed:
                    x = fresh_int("cx")
                    eng.oblige(s, Implies(And(lt(0, x), le(x, eng.entry_wm), alive(kk.entry.al, x), cond(x)), Not(alive(s.al, x))), "ensures/everything that is to be freed is freed")
                if post is None:
                    return
                pendp = [()]
                n0 = sym._ctr.high
                saved = eng.memo_start(s)
                while pendp:
                    d = pendp.pop(0)
                    s3 = s.copy()
                    sym._ctr.v = n0
                    pk = K(eng, s3, "verify", name, args, fn.ret, d)
                    pk.entry, pk.data, pk.mods = kk.entry, kk.data, kk.mods
                    nobs = len(eng.obs)
                    kk.st = s3
                    kk.dec, kk.di = list(d), 0
                    try:
                        post(val)
                    except NeedFork:
                        del eng.obs[nobs:]
                        pendp += [tuple(kk.dec) + ((True, None),), tuple(kk.dec) + ((False, None),)]
                    except Infeasible:
                        del eng.obs[nobs:]
                kk.st = s
                sym._ctr.v = sym._ctr.high
                eng.memo, eng.memo_base, eng.memo_refs = saved
            eng.on_ret = on_ret
            kk.result = None
            eng.explore([s2])
            ncover += rets[0]
        if ncover == 0:
            res["status"] = "vacuous"
            res["error"] = "no path reaches a return"
    except Unsupported as e:
        res["status"] = "unsupported"
        res["error"] = "%s (near %s)" % (e, "?")
        import traceback
        res["tb"] = traceback.format_exc()
    except PathLimit as e:
        res["status"] = "limit"
        res["error"] = str(e)
    except z3.Z3Exception as e:
        import traceback
        res["status"] = "error"
        res["error"] = "z3: %s" % e
        res["tb"] = traceback.format_exc()
    res["obs"] = eng.obs
    res["paths"] = eng.paths + 1
    res["time"] = time.time() - t0
    res["solver_time"] = eng.solver.time
    res["queries"] = eng.solver.queries
    res["contracts"] = sorted(eng.used_contracts)
    res["trusted"] = sorted(eng.used_trusted)
    res["inlined"] = sorted(eng.inlined)
    res["loops"] = eng.loop_info
    res["assumptions"] = sorted(eng.assumptions)
    if res["status"] == "ok" and not eng.obs:
        res["status"] = "vacuous"
        res["error"] = "no obligations generated"
    if res["status"] == "ok" and any(o.status != "ok" for o in eng.obs):
        res["status"] = "failed"
    return res
