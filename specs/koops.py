"""Kernel oops texts: the documented forms of stack lines, and what is reported for them"""
from spec import *
from gram import *
from utils_scan import LIM

WS = " \t"
SPACE = "\t\n\r\v\f "


def timestamp(c):
    c.need(c.skip("["))
    c.span(SPACE)
    c.digits()
    c.need(c.skip("."))
    c.digits()
    c.need(c.skip("]"))


def address(c):
    """[<ffffffff811c6ed5>] or [c0000001fd9efcd0]"""
    c.need(c.skip("["))
    angle = c.skip("<")
    v = c.hexdigits()
    c.need(v is not None)
    if angle:
        c.need(c.skip(">"))
    c.need(c.skip("]"))
    return {"addr": v}


def module(c):
    """[module]"""
    c.need(c.skip("["))
    n = c.some(c.cspan(" \t\n]"))
    c.need(c.skip("]"))
    return {"mod": n}


def function(c):
    """name+0x1f/0x20 [module], the same in parentheses, or just 0xffff..."""
    paren = c.skip("(")
    if c.hex0x() is not None:
        if paren:
            c.need(c.skip(")"))
        return {}
    name = c.some(c.cspan(" \t\n)+<"))
    c.need(c.skip("+"))
    off = c.hex0x()
    c.need(c.skip("/"))
    length = c.hex0x()
    c.span(WS)
    m = c.use(MODULE)
    c.span(WS)
    if paren:
        c.need(c.skip(")"))
    return {"fn": name, "off": off, "len": length, "mod": m["mod"] if m else None}


def unfinished(c):
    """the number of an address whose brackets are not closed (the code keeps it)"""
    c.need(c.skip("["))
    c.skip("<")
    v = c.hexdigits()
    c.need(v is not None)
    return {"addr": v}


TIMESTAMP = Rule("Timestamp", timestamp)
ADDRESS = Rule("Address", address, {"addr": "num!"})
UNFINISHED = Rule("UnfinishedAddress", unfinished, {"addr": "num!"})
MODULE = Rule("Module", module, {"mod": "txt!"})
FUNCTION = Rule("FunctionPart", function, {"fn": "txt", "off": "num", "len": "num", "mod": "txt"})
LINE = {"addr": "num", "rel": "bool", "fn": "txt", "off": "num", "len": "num", "mod": "txt",
        "faddr": "num", "ffn": "txt", "foff": "num", "flen": "num", "fmod": "txt"}


def fn_outs(d, pre=""):
    return {pre + o: v for o, v in d.items()}


def ppc(c):
    """[sp] [address] .name+0x1/0x2 [module] (unreliable)"""
    c.span(WS)
    c.must(ADDRESS)
    c.span(WS)
    a = c.must(ADDRESS)
    c.span(WS)
    c.opt(".")
    d = c.must(FUNCTION)
    c.span(WS)
    rel = Not(c.opt("(unreliable)"))
    c.span(WS)
    if not c.peek(0):
        c.need(c.skip("\n"))
    return dict(fn_outs(d), addr=a["addr"], rel=rel)


def arm(c):
    """[<address>] (name) from [<address>] (name+0x1/0x2)"""
    c.span(WS)
    a = c.must(ADDRESS)
    c.span(WS)
    rel = Not(c.opt("?"))
    c.span(WS)
    c.need(c.skip("("))
    name = c.some(c.cspan(" \t\n)+<"))
    c.need(c.skip(")"))
    c.span(WS)
    c.need(c.lit("from"))
    c.span(WS)
    fa = c.must(ADDRESS)
    c.span(WS)
    d = c.must(FUNCTION)
    return dict(fn_outs(d, "f"), addr=a["addr"], rel=rel, fn=name, faddr=fa["addr"])


PPC = Rule("PowerPcLine", ppc, LINE)
ARM = Rule("ReducedArmLine", arm, LINE)


def line(c):
    """one of the above, or  ([<address>] ? name+0x1/0x2 [module]) from ... [module]  with every part but the function optional"""
    for r in (PPC, ARM):
        d = c.use(r)
        if d is not None:
            return d
    c.span(WS)
    paren = c.skip("(")
    d, f, fa, rel = {}, {}, None, True
    r = c.rank()
    a = c.use(ADDRESS)
    if a is None:
        v = c.hex0x()
        if v is not None:
            if not c.peek(0):
                c.need(c.skip("\n"))
            return {"addr": v, "rel": False}
        a = {"addr": Num(UNFINISHED.f["addr"][0](r), UNFINISHED.ok(r))}
    c.span(WS)
    rel = Not(c.opt("?"))
    c.span(WS)
    d = c.must(FUNCTION)
    c.span(WS)
    if c.lit("from"):
        c.span(WS)
        fa = c.must(ADDRESS)["addr"]
        c.span(WS)
        f = c.must(FUNCTION)
        c.span(WS)
    if not c.case(d["mod"].present):
        m = c.use(MODULE)
        if m:
            d = dict(d, mod=m["mod"])
            c.span(WS)
    if paren:
        c.need(c.skip(")"))
        c.span(WS)
    if not c.peek(0):
        c.need(c.skip("\n"))
    return dict(fn_outs(f, "f"), **dict(fn_outs(d), addr=a["addr"], rel=rel, faddr=fa))


FRAME = Rule("StackLine", line, LINE)
FIELDS = {"addr": "address", "rel": "reliable", "fn": "function_name", "off": "function_offset", "len": "function_length", "mod": "module_name",
          "faddr": "from_address", "ffn": "from_function_name", "foff": "from_function_offset", "flen": "from_function_length", "fmod": "from_module_name"}
KF = "sr_koops_frame"


def frame_contract(rule):
    return object_contract(rule, KF, FIELDS, zero=["special_stack", "next"], const=[("type", 3)])


def reg(name, c, file="koops_frame.c", **o):
    CONTRACTS[name] = c
    INFO[name] = {"file": file, "opts": o}


reg("sr_koops_skip_timestamp", skip_contract(TIMESTAMP))
reg("sr_koops_parse_address", cells_contract(ADDRESS, ["addr"], residue=UNFINISHED))
reg("sr_koops_parse_module_name", cells_contract(MODULE, ["mod"]))
reg("sr_koops_parse_function", cells_contract(FUNCTION, ["fn", "off", "len", "mod"], dangling=True))
reg("koops_frame_parse_ppc", frame_contract(PPC))
reg("koops_frame_parse_arm_reduced", frame_contract(ARM))
reg("sr_koops_frame_parse", frame_contract(FRAME))


# ---------------------------------------------------------------- special lines of an oops
def ip(c):
    """RIP: 0010:[<address>]  <stack line>   or   EIP: [<address>] ? name+0x1/0x2 [module] ..."""
    c.span(WS)
    if c.lit("RIP:"):
        c.some(c.span(WS))
        c.some(c.cspan(WS))
        c.some(c.span(WS))
        return c.must(FRAME)
    c.need(c.lit("EIP:"))
    c.some(c.span(WS))
    a = c.must(ADDRESS)
    c.span(WS)
    rel = Not(c.opt("?"))
    c.span(WS)
    d = c.must(FUNCTION)
    c.cspan("\n")
    return dict(d, addr=a["addr"], rel=rel)


def alt_end(c):
    """<EOI> or <<EOE>>"""
    c.span(WS)
    c.some(c.span("<"))
    c.need(c.lit("EO"))
    c.some(c.span("IE"))
    c.some(c.span(">"))


def alt_start(c):
    """<IRQ>"""
    c.span(WS)
    c.need(c.skip("<"))
    n = c.some(c.cspan("> \t\n"))
    c.need(c.skip(">"))
    return {"label": n}


IP = Rule("InstructionPointerLine", ip, LINE)
ALTEND = Rule("AlternateStackEnd", alt_end)
ALTSTART = Rule("AlternateStackStart", alt_start, {"label": "txt!"})
reg("parse_IP", frame_contract(IP), file="koops_stacktrace.c")
reg("parse_alt_stack_end", skip_contract(ALTEND), file="koops_stacktrace.c")
reg("parse_alt_stack_start", string_result(ALTSTART, "label"), file="koops_stacktrace.c")


def continues(c):
    """the line does not start like one that follows a module list"""
    if c.use(TIMESTAMP) is not None:
        return False
    if c.lit("Pid: "):
        return False
    for t in ("CPU", "irq event stamp"):
        if c.lit(t) and c.case(lt(0, c.span(" :")[1])) and c.case(lt(0, c.span("0123456789")[1])):
            return False
    if c.lit("CR2: ") and c.case(lt(0, c.numspan(isxdig))):
        return False
    return True


@contract("module_list_continues", file="koops_stacktrace.c")
def _(k, inp):
    k.requires(k.valid_str(inp), "text")
    N = k.nul(inp)
    k.requires(lt(sub(N, inp.p), LIM), "text shorter than 2^31")

    def post(res):
        if k.mode == "verify":
            k.ensures(res if continues(Cur(k, inp, N)) else Not(res), "tells whether the line can continue a module list")
    return post


# the stack line has many forms: one proof per group of forms (together they are all of them)
def part(which):
    def pre(k, inp, s, N):
        c = Cur(k, s, N)
        r = c.rank()
        other = Or(PPC.ok(r), ARM.ok(r))
        if which == "ppc, arm":
            k.requires(other, "one of the other forms")
            return
        k.requires(Not(other), "none of the other forms")
        c.span(WS)
        paren = eq(c.ch(), ord("("))
        k.requires(paren if "(" in which else Not(paren), "the parenthesis")
        c.p = add(c.p, 1 if "(" in which else 0)
        a = ADDRESS.ok(c.rank())
        k.requires(a if "[" in which else Not(a), "the address")
        if "[" in which:
            c.p = add(c.p, ADDRESS.len(c.rank()))
        c.span(WS)
        c.opt("?")
        c.span(WS)
        if "module" in which:
            m = And(FUNCTION.ok(c.rank()), FUNCTION.f["mod"][2](c.rank()))
            k.requires(Not(m) if "no module" in which else m, "the module of the function")
        c.p = add(c.p, ite(FUNCTION.ok(c.rank()), FUNCTION.len(c.rank()), 0))
        c.span(WS)
        f = eq(c.ch(), ord("f"))
        k.requires(f if "from" in which else Not(f), "the second half")
    return object_contract(FRAME, KF, FIELDS, zero=["special_stack", "next"], const=[("type", 3)], pre=pre)


PARTS = ["ppc, arm"] + [a + b for a in ("([address]", "(", "[address]", "plain") for b in ("", " from, module", " from, no module")]
