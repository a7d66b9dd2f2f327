"""Parser for the textual LLVM IR that clang-18 -O0 emits for satyr's C sources."""
import re, os, subprocess, hashlib, json, sys

REPO = os.environ.get("SATYR_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


class Ty:
    __slots__ = ("k", "w", "el", "n", "fields", "name")

    def __init__(self, k, w=0, el=None, n=0, fields=None, name=None):
        self.k, self.w, self.el, self.n, self.fields, self.name = k, w, el, n, fields, name

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.w
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "named":
            return "%" + self.name
        return self.k


PTR = Ty("ptr")
VOID = Ty("void")
INTS = {w: Ty("int", w) for w in (1, 8, 16, 32, 64, 128)}
F32 = Ty("f32")
F64 = Ty("f64")
F80 = Ty("f80")


class Instr:
    __slots__ = ("op", "dst", "a", "line", "text", "scope")

    def __init__(self, op, dst, a, line, text):
        self.op, self.dst, self.a, self.line, self.text = op, dst, a, line, text
        self.scope = None

    def __repr__(self):
        return self.text


class Fn:
    def __init__(self, name, ret, params, vararg, module):
        self.name, self.ret, self.params, self.vararg, self.module = name, ret, params, vararg, module
        self.blocks = {}
        self.order = []
        self.entry = None
        self.dbg = None
        self.paramnames = []   # debug names
        self.internal = False


class Module:
    def __init__(self, name):
        self.name = name
        self.structs = {}
        self.globals = {}
        self.fns = {}
        self.decls = {}
        self.md = {}


TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)|![-a-zA-Z$._0-9]*|-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMH]+|-?\d+|[a-zA-Z_][-a-zA-Z$._0-9]*|\.\.\.|[(){}\[\]<>,=*#|:])''')


class P:
    def __init__(self, text, module):
        self.t = []
        i = 0
        n = len(text)
        while i < n:
            m = TOK.match(text, i)
            if not m:
                if text[i:].strip() == "" or text[i:].lstrip().startswith(";"):
                    break
                raise ValueError("lex: %r at %r" % (text, text[i:i + 30]))
            self.t.append(m.group(1))
            i = m.end()
        self.i = 0
        self.m = module

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ValueError("expected %s got %s in %s" % (x, y, " ".join(self.t)))

    def ty(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif x == "float":
            t = F32
        elif x == "double":
            t = F64
        elif x == "x86_fp80":
            t = F80
        elif x == "metadata":
            t = Ty("metadata")
        elif re.fullmatch(r"i\d+", x):
            w = int(x[1:])
            t = INTS.get(w) or Ty("int", w)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            el = self.ty()
            self.expect("]")
            t = Ty("arr", el=el, n=n)
        elif x == "<":
            if self.accept("{"):
                f = []
                while not self.accept("}"):
                    f.append(self.ty())
                    self.accept(",")
                self.expect(">")
                t = Ty("struct", fields=f, n=1)
            else:
                n = int(self.next())
                self.expect("x")
                el = self.ty()
                self.expect(">")
                t = Ty("vec", el=el, n=n)
        elif x == "{":
            f = []
            while not self.accept("}"):
                f.append(self.ty())
                self.accept(",")
            t = Ty("struct", fields=f)
        elif x[0] == "%":
            t = Ty("named", name=x[1:].strip('"'))
        elif x == "opaque":
            t = Ty("opaque")
        else:
            raise ValueError("type %s in %s" % (x, " ".join(self.t)))
        # function type suffix  e.g.  i32 (ptr, ...)
        if self.peek() == "(" and t.k in ("int", "ptr", "void", "f32", "f64", "struct", "named"):
            # only when parsing call types
            save = self.i
            try:
                self.next()
                while not self.accept(")"):
                    if self.accept("..."):
                        continue
                    self.ty()
                    self.attrs()
                    self.accept(",")
                return Ty("fn", el=t)
            except Exception:
                self.i = save
        return t

    ATTR = {"noundef", "signext", "zeroext", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "returned",
            "inreg", "immarg", "allocptr", "allocsize", "dso_local", "inbounds", "nuw", "nsw", "exact", "volatile",
            "internal", "private", "unnamed_addr", "local_unnamed_addr", "global", "constant", "external", "common",
            "tail", "musttail", "notail", "fastcc", "ccc", "fast", "nnan", "ninf", "hidden", "weak", "linkonce_odr",
            "disjoint", "nneg", "readnone", "zeroinitializer_"}

    def attrs(self):
        out = []
        while True:
            x = self.peek()
            if x in P.ATTR:
                out.append(x)
                self.i += 1
            elif x in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "addrspace"):
                out.append(x)
                self.i += 1
                if self.peek() == "(":
                    d = 0
                    while True:
                        y = self.next()
                        if y == "(":
                            d += 1
                        if y == ")":
                            d -= 1
                            if d == 0:
                                break
                elif x == "align":
                    self.next()
            else:
                return out

    def const_expr(self, ty):
        """value of type ty"""
        x = self.next()
        if x[0] == "%":
            return ("reg", x[1:])
        if x[0] == "@":
            return ("glob", x[1:].strip('"'))
        if x in ("null",):
            return ("null",)
        if x in ("true", "false"):
            return ("int", 1 if x == "true" else 0)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x.startswith('c"'):
            return ("bytes", unescape(x[2:-1]))
        if x == "[" or x == "{" or x == "<":
            close = {"[": "]", "{": "}", "<": ">"}[x]
            if x == "<" and self.peek() == "{":
                self.next()
                close = "}"
            items = []
            while not self.accept(close):
                t = self.ty()
                self.attrs()
                items.append((t, self.const_expr(t)))
                self.accept(",")
            if x == "<" and close == "}":
                self.expect(">")
            return ("agg", items)
        if x in ("getelementptr",):
            self.attrs()
            self.expect("(")
            base = self.ty()
            self.expect(",")
            ops = []
            while True:
                t = self.ty()
                self.attrs()
                ops.append((t, self.const_expr(t)))
                if not self.accept(","):
                    break
            self.expect(")")
            return ("gep", base, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            t = self.ty()
            v = self.const_expr(t)
            self.expect("to")
            t2 = self.ty()
            self.expect(")")
            return ("cast", x, t, v, t2)
        if x in ("sub", "add", "mul"):
            self.attrs()
            self.expect("(")
            t = self.ty()
            a = self.const_expr(t)
            self.expect(",")
            t = self.ty()
            b = self.const_expr(t)
            self.expect(")")
            return ("bin", x, t, a, b)
        if x == "asm":
            return ("asm",)
        if x[0] == "!":
            return ("md", x)
        if re.fullmatch(r"-?\d+", x):
            if ty.k in ("f32", "f64"):
                return ("float", float(x))
            return ("int", int(x))
        if x.startswith("0x"):
            import struct
            if x[2] in "KLMH":
                return ("undef",)
            return ("float", struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0])
        if re.fullmatch(r"-?\d+\.\d+(e[+-]?\d+)?", x):
            return ("float", float(x))
        raise ValueError("const %s in %s" % (x, " ".join(self.t)))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1] == "\\":
            out.append(92)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def strip_meta(line):
    # cut ", !dbg ..." and other trailing metadata
    m = re.search(r", !dbg !(\d+)", line)
    dbg = int(m.group(1)) if m else None
    line = re.sub(r", ![a-zA-Z_.]+ ![0-9]+", "", line)
    line = re.sub(r" #\d+(?=\s*(,|$))", "", line)
    return line, dbg


def parse_instr(line, mod):
    raw = line
    line, dbg = strip_meta(line)
    p = P(line, mod)
    dst = None
    if p.peek() and p.peek()[0] == "%" and p.peek(1) == "=":
        dst = p.next()[1:]
        p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    a = None
    if op == "alloca":
        t = p.ty()
        cnt = None
        if p.accept(","):
            if p.peek() != "align":
                tt = p.ty()
                cnt = (tt, p.const_expr(tt))
        a = (t, cnt)
    elif op == "load":
        p.attrs()
        t = p.ty()
        p.expect(",")
        pt = p.ty()
        a = (t, p.const_expr(pt))
    elif op == "store":
        p.attrs()
        t = p.ty()
        v = p.const_expr(t)
        p.expect(",")
        pt = p.ty()
        a = (t, v, p.const_expr(pt))
    elif op == "getelementptr":
        p.attrs()
        base = p.ty()
        p.expect(",")
        ops = []
        while True:
            t = p.ty()
            ops.append((t, p.const_expr(t)))
            if not p.accept(","):
                break
        a = (base, ops)
    elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr",
                "fadd", "fsub", "fmul", "fdiv", "frem"):
        fl = p.attrs()
        t = p.ty()
        x = p.const_expr(t)
        p.expect(",")
        a = (t, x, p.const_expr(t), fl)
    elif op == "fneg":
        p.attrs()
        t = p.ty()
        a = (t, p.const_expr(t))
    elif op in ("icmp", "fcmp"):
        p.attrs()
        pred = p.next()
        t = p.ty()
        x = p.const_expr(t)
        p.expect(",")
        a = (pred, t, x, p.const_expr(t))
    elif op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext",
                "fptrunc", "bitcast"):
        p.attrs()
        t = p.ty()
        v = p.const_expr(t)
        p.expect("to")
        a = (t, v, p.ty())
    elif op == "br":
        t = p.ty() if p.peek() != "label" else None
        if t is None:
            p.expect("label")
            a = (None, p.next()[1:])
        else:
            c = p.const_expr(t)
            p.expect(",")
            p.expect("label")
            x = p.next()[1:]
            p.expect(",")
            p.expect("label")
            a = (c, x, p.next()[1:])
    elif op == "switch":
        t = p.ty()
        v = p.const_expr(t)
        p.expect(",")
        p.expect("label")
        d = p.next()[1:]
        p.expect("[")
        cases = []
        while not p.accept("]"):
            tt = p.ty()
            c = p.const_expr(tt)
            p.expect(",")
            p.expect("label")
            cases.append((c[1], p.next()[1:]))
        a = (t, v, d, cases)
    elif op == "ret":
        t = p.ty()
        a = (t, p.const_expr(t) if t.k != "void" else None)
    elif op == "unreachable":
        a = ()
    elif op == "select":
        p.attrs()
        t = p.ty()
        c = p.const_expr(t)
        p.expect(",")
        t1 = p.ty()
        x = p.const_expr(t1)
        p.expect(",")
        t2 = p.ty()
        a = (c, t1, x, p.const_expr(t2))
    elif op == "phi":
        t = p.ty()
        inc = []
        while True:
            p.expect("[")
            v = p.const_expr(t)
            p.expect(",")
            b = p.next()[1:]
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        a = (t, inc)
    elif op == "call":
        ra = p.attrs()
        t = p.ty()
        if t.k == "fn":
            t = t.el
        if p.peek() == "asm":
            a = (t, ("asm",), [])
        else:
            cal = p.const_expr(PTR)
            p.expect("(")
            args = []
            while not p.accept(")"):
                at = p.ty()
                p.attrs()
                if at.k == "metadata":
                    # metadata operand: skip to , or ) at depth 0
                    d = 0
                    while True:
                        y = p.peek()
                        if d == 0 and y in (",", ")"):
                            break
                        if y == "(":
                            d += 1
                        if y == ")":
                            d -= 1
                        p.next()
                    args.append((at, None))
                else:
                    args.append((at, p.const_expr(at)))
                p.accept(",")
            a = (t, cal, args)
    elif op == "extractvalue":
        t = p.ty()
        v = p.const_expr(t)
        p.expect(",")
        a = (t, v, int(p.next()))
    elif op == "va_arg":
        a = ("va_arg",)
    elif op == "freeze":
        t = p.ty()
        a = (t, p.const_expr(t))
    else:
        raise ValueError("unknown instr: " + raw)
    ins = Instr(op, dst, a, None, raw.strip())
    ins.scope = dbg
    return ins


def parse_module(path):
    mod = Module(os.path.basename(path))
    cur = None
    blk = None
    lines = open(path).read().split("\n")
    i = 0
    md = {}
    while i < len(lines):
        line = lines[i]
        i += 1
        if cur is None:
            if not line or line[0] == ";" or line.startswith(("source_filename", "target ", "attributes ")):
                continue
            if line[0] == "%":
                m = re.match(r'%("?[^" ]+"?) = type (.*)$', line)
                name = m.group(1).strip('"')
                if m.group(2) == "opaque":
                    mod.structs[name] = Ty("opaque")
                else:
                    mod.structs[name] = P(m.group(2), mod).ty()
                continue
            if line[0] == "@":
                l2, _ = strip_meta(line)
                l2 = re.sub(r", align \d+\s*$", "", l2)
                l2 = re.sub(r", (comdat|section .*)$", "", l2)
                p = P(l2, mod)
                name = p.next()[1:].strip('"')
                p.expect("=")
                at = p.attrs()
                t = p.ty()
                init = None
                if p.peek() is not None and p.peek() != ",":
                    p.attrs()
                    init = p.const_expr(t)
                mod.globals[name] = (t, init, "external" in at, "constant" in at, ("private" in at or "internal" in at))
                continue
            if line[0] == "!":
                m = re.match(r"!(\d+) = (.*)$", line)
                if m:
                    md[int(m.group(1))] = m.group(2)
                continue
            if line.startswith("define"):
                h = line[len("define"):]
                m = re.search(r"!dbg !(\d+) \{", h)
                dbg = int(m.group(1)) if m else None
                h = re.sub(r" #\d+.*$", "", h)
                p = P(h, mod)
                at = p.attrs()
                rt = p.ty()
                name = p.next()[1:].strip('"')
                p.expect("(")
                params = []
                va = False
                while not p.accept(")"):
                    if p.accept("..."):
                        va = True
                        continue
                    t = p.ty()
                    p.attrs()
                    params.append((t, p.next()[1:]))
                    p.accept(",")
                cur = Fn(name, rt, params, va, mod)
                cur.dbg = dbg
                cur.internal = "internal" in at
                blk = None
                continue
            if line.startswith("declare"):
                m = re.search(r"@([-\w.$]+)\(", line)
                mod.decls[m.group(1)] = line
                continue
        else:
            if line == "}":
                mod.fns[cur.name] = cur
                cur = None
                continue
            if not line.strip():
                continue
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]+"):', line)
            if m:
                blk = m.group(1).strip('"')
                cur.blocks[blk] = []
                cur.order.append(blk)
                if cur.entry is None:
                    cur.entry = blk
                continue
            if blk is None:
                blk = "entry0"
                cur.blocks[blk] = []
                cur.order.append(blk)
                cur.entry = blk
            s = line
            if " switch " in s or s.strip().startswith("switch"):
                while "]" not in s:
                    s += " " + lines[i]
                    i += 1
            if "@llvm.dbg." in s:
                continue
            ins = parse_instr(s, mod)
            cur.blocks[blk].append(ins)
    mod.md = md
    # resolve lines
    for f in mod.fns.values():
        for b in f.blocks.values():
            for ins in b:
                if ins.scope is not None:
                    t = md.get(ins.scope, "")
                    m = re.search(r"line: (\d+)", t)
                    ins.line = int(m.group(1)) if m else None
    return mod


# ---------------------------------------------------------------- debug types
def debug_structs(mod):
    """name -> {size, fields:{name:(off_bytes,size_bytes,kind,signed,typename)}} from DWARF metadata in the IR"""
    md = mod.md
    cache = {}

    def attr(t, k):
        m = re.search(r"\b%s: (\"[^\"]*\"|!?[-\w]+)" % k, t)
        return m.group(1).strip('"') if m else None

    def resolve(ref):
        """(kind, size, signed, name)"""
        if ref is None or ref == "null":
            return ("void", 0, False, "void")
        r = int(ref[1:])
        if r in cache:
            return cache[r]
        t = md[r]
        tag = attr(t, "tag")
        if "DIBasicType" in t:
            enc = attr(t, "encoding")
            size = int(attr(t, "size") or 0) // 8
            k = "float" if enc == "DW_ATE_float" else ("bool" if enc == "DW_ATE_boolean" else "int")
            v = (k, size, enc in ("DW_ATE_signed", "DW_ATE_signed_char"), attr(t, "name"))
        elif "DIDerivedType" in t and tag == "DW_TAG_pointer_type":
            v = ("ptr", 8, False, "ptr")
        elif "DIDerivedType" in t:
            v = resolve(attr(t, "baseType"))
        elif "DISubroutineType" in t:
            v = ("fn", 0, False, "fn")
        elif "DICompositeType" in t:
            if tag == "DW_TAG_enumeration_type":
                v = ("int", int(attr(t, "size") or 32) // 8, False, "enum")
            elif tag == "DW_TAG_array_type":
                b = resolve(attr(t, "baseType"))
                v = ("arr", int(attr(t, "size") or 0) // 8, b[2], b)
            else:
                v = ("struct", int(attr(t, "size") or 0) // 8, False, attr(t, "name") or ("!%d" % r))
        else:
            v = ("?", 0, False, "?")
        cache[r] = v
        return v

    out = {}
    aliases = {}
    for n, t in md.items():
        if "DICompositeType" in t and ("DW_TAG_structure_type" in t or "DW_TAG_union_type" in t):
            name = attr(t, "name") or ("!%d" % n)
            el = attr(t, "elements")
            if not el:
                continue
            fields = {}
            for e in re.findall(r"!(\d+)", md[int(el[1:])]):
                et = md[int(e)]
                fn = attr(et, "name")
                off = int(attr(et, "offset") or 0) // 8
                k = resolve(attr(et, "baseType"))
                fields[fn] = (off, k[1], k[0], k[2], k[3])
            out[name] = (int(attr(t, "size") or 0) // 8, fields)
        if "DIDerivedType" in t and "DW_TAG_typedef" in t:
            bt = attr(t, "baseType")
            if bt and bt != "null":
                v = resolve(bt)
                if v[0] == "struct":
                    aliases[attr(t, "name")] = v[3]
    for a, b in aliases.items():
        if b in out and a not in out:
            out[a] = out[b]
    return out


# ---------------------------------------------------------------- compilation
def cflags():
    import shlex
    fl = subprocess.run(["pkg-config", "--cflags", "glib-2.0", "json-c"], capture_output=True, text=True).stdout.split()
    return ["-DHAVE_CONFIG_H", "-std=gnu99", "-D_GNU_SOURCE", "-I" + REPO + "/include", "-I" + REPO + "/lib", "-I" + REPO] + fl


def compile_ir(src, outdir):
    os.makedirs(outdir, exist_ok=True)
    out = os.path.join(outdir, os.path.basename(src)[:-2] + ".ll")
    cmd = ["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-S", "-emit-llvm",
           "-w", "-include", os.path.join(HERE, "preinclude.h")] + cflags() + [src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO + "/lib")
    if r.returncode != 0:
        raise RuntimeError("clang-18 failed on %s:\n%s" % (src, r.stderr[:2000]))
    return out


if __name__ == "__main__":
    import time
    for f in sys.argv[1:]:
        t = time.time()
        m = parse_module(compile_ir(f, "/tmp/ir2"))
        ds = debug_structs(m)
        print(f, len(m.fns), len(ds), round(time.time() - t, 2))
