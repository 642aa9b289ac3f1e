"""Builder for Myrddin programs: every node carries the source text for the
compiler and the JSON syntax tree for spec/Myr.tla.  No semantics here."""

INTS = {"int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True), "int": (32, True),
        "uint8": (8, False), "uint16": (16, False), "uint32": (32, False), "uint64": (64, False),
        "uint": (32, False), "byte": (8, False)}
INTNAMES = list(INTS)


def limbs(v, w):
    v &= (1 << w) - 1
    return [v] if w <= 16 else [(v >> (16 * i)) & 65535 for i in range(w // 16)]


def norm(v, y):
    w, s = INTS[y]
    v &= (1 << w) - 1
    return v - (1 << w) if s and v >> (w - 1) else v


# ------------------------------------------------------------------- types
class T:
    """kind: int bool flt void struct tuple arr slice ptr union fn param"""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return self.txt()

    def key(self):
        return self.txt()

    def __eq__(self, o):
        return isinstance(o, T) and self.txt() == o.txt()

    def __hash__(self):
        return hash(self.txt())

    def txt(self):
        k = self.kind
        if k in ("int", "flt", "struct", "union", "param"):
            return self.name
        if k == "bool":
            return "bool"
        if k == "void":
            return "void"
        if k == "tuple":
            return "(" + ", ".join(t.txt() for t in self.ts) + ")"
        if k == "arr":
            return "%s[%d]" % (self.t.txt(), self.n)
        if k == "slice":
            return "%s[:]" % self.t.txt()
        if k == "ptr":
            return "%s#" % self.t.txt()
        if k == "fn":
            return "(" + ", ".join("a%d : %s" % (i, t.txt()) for i, t in enumerate(self.args)) + " -> " + self.ret.txt() + ")"
        raise ValueError(k)


INT = {n: T("int", name=n) for n in INTS}
BOOL = T("bool")
VOID = T("void")
FLT64 = T("flt", name="flt64")
FLT32 = T("flt", name="flt32")
U64 = INT["uint64"]
BYTE = INT["byte"]
STR = T("slice", t=BYTE)


def tup(*ts):
    return T("tuple", ts=list(ts))


def arr(t, n):
    return T("arr", t=t, n=n)


def sl(t):
    return T("slice", t=t)


def ptr(t):
    return T("ptr", t=t)


def fn(args, ret):
    return T("fn", args=list(args), ret=ret)


def struct(name, fields):
    return T("struct", name=name, fields=list(fields))


def union(name, tags):
    return T("union", name=name, tags=list(tags))     # [(tag, type or None)]


def tydecl(t, params=""):
    if t.kind == "struct":
        return "type %s%s = struct\n%s;;\n" % (t.name, params, "".join("\t%s : %s\n" % (n, f.txt()) for n, f in t.fields))
    return "type %s%s = union\n%s;;\n" % (t.name, params, "".join("\t`%s%s\n" % (n, " " + f.txt() if f else "") for n, f in t.tags))


def zero(t):
    """JSON of the zero value of a type (literals' missing members)."""
    k = t.kind
    if k == "int":
        return limbs(0, INTS[t.name][0])
    if k == "bool":
        return False
    if k == "flt":
        return 0
    if k == "struct":
        return [zero(f) for _, f in t.fields]
    if k == "tuple":
        return [zero(f) for f in t.ts]
    if k == "arr":
        return [zero(t.t)] * t.n
    if k == "union":
        tag, f = t.tags[0]
        return {"t": tag, "v": zero(f) if f else []}
    if k == "slice":
        return {"o": 0, "p": [], "lo": 0, "hi": 0}
    if k == "ptr":
        return {"o": 0, "p": []}
    return []


def term(t, pat=()):
    """the type as a term for the specification; parameters in pat are pattern variables"""
    k = t.kind
    if k == "param":
        return ["?", t.name] if t.name in pat else [t.name]
    if k in ("struct", "union"):
        return [getattr(t, "head", t.name)] + [term(a, pat) for a in getattr(t, "targs", [])]
    if k == "tuple":
        return ["()"] + [term(a, pat) for a in t.ts]
    if k == "arr":
        return ["[]", term(t.t, pat), [str(t.n)]]
    if k == "slice":
        return ["[:]", term(t.t, pat)]
    if k == "ptr":
        return ["#", term(t.t, pat)]
    if k == "fn":
        return ["->"] + [term(a, pat) for a in [t.ret] + t.args]
    return [t.txt()]


# -------------------------------------------------------------- expressions
# precedence per doc/lang.txt: 11 postfix, 10 prefix, 9 shift, 8 mul, 7 add,
# 6 band, 5 bor/bxor, 4 compare, 3 land, 2 lor, 1 ternary/assignment
class E:
    def __init__(self, txt, prec, j, t, call=False, const=False):
        self.txt, self.prec, self.j, self.t = txt, prec, j, t
        self.call = call        # contains a call with effects
        self.const = const

    def p(self, prec):
        """text with parentheses if it binds less tightly than prec"""
        return self.txt if self.prec >= prec else "(" + self.txt + ")"


OPPREC = {"*": 8, "/": 8, "%": 8, "+": 7, "-": 7, "<<": 9, ">>": 9, "&": 6, "|": 5, "^": 5,
          "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4}


def ilit_txt(v, style=None):
    """text of a non-negative integer"""
    if style == "x":
        return "0x%x" % v
    if style == "o":
        return "0o%o" % v
    if style == "b":
        return "0b{:b}".format(v)
    return str(v)


SUFFIX = {"int64": "l", "uint64": "ul", "int32": "i", "uint32": "ui", "int16": "s", "uint16": "us",
          "int8": "b", "uint8": "ub", "byte": None, "int": None, "uint": None}


def ilit(v, t, style=None, suffix=False):
    """integer literal of type t (the context must fix the type unless suffix)"""
    w, s = INTS[t.name]
    v = norm(v, t.name)
    neg = v < 0
    txt = ilit_txt(abs(v), style)
    if suffix and SUFFIX[t.name]:
        txt += SUFFIX[t.name]
    if neg:
        txt = "-" + txt
    return E(txt, 10 if neg else 12, {"k": "lit", "v": limbs(v, w)}, t, const=True)


def blit(b):
    return E("true" if b else "false", 12, {"k": "lit", "v": b}, BOOL, const=True)


def flit(v, t=FLT64):
    return E(("%d.0" % abs(v)) if v >= 0 else "-%d.0" % abs(v), 10 if v < 0 else 12, {"k": "lit", "v": v}, t, const=True)


def esc(bs):
    r = ""
    for b in bs:
        c = chr(b)
        if c == '"' or c == "\\":
            r += "\\" + c
        elif 32 <= b < 127:
            r += c
        else:
            r += "\\x%02x" % b
    return '"' + r + '"'


def strlit(bs):
    return E(esc(bs), 12, {"k": "str", "v": [[b] for b in bs]}, STR)


def var(n, t):
    return E(n, 12, {"k": "var", "n": n}, t)


def _c(*es):
    return any(e.call for e in es)


def bin_(op, a, b):
    pr = OPPREC[op]
    return E("%s %s %s" % (a.p(pr), op, b.p(pr + 1)), pr,
             {"k": "bin", "op": op, "y": a.t.txt(), "a": a.j, "b": b.j}, a.t, _c(a, b), a.const and b.const)


def cmp_(op, a, b):
    pr = OPPREC[op]
    return E("%s %s %s" % (a.p(pr + 1), op, b.p(pr + 1)), pr,
             {"k": "cmp", "op": op, "y": a.t.txt(), "a": a.j, "b": b.j}, BOOL, _c(a, b), a.const and b.const)


def fbin(op, a, b):
    pr = OPPREC[op]
    return E("%s %s %s" % (a.p(pr), op, b.p(pr + 1)), pr, {"k": "fbin", "op": op, "a": a.j, "b": b.j}, a.t, _c(a, b))


def fcmp(op, a, b):
    pr = OPPREC[op]
    return E("%s %s %s" % (a.p(pr + 1), op, b.p(pr + 1)), pr, {"k": "fcmp", "op": op, "a": a.j, "b": b.j}, BOOL, _c(a, b))


def fneg(a):
    return E("-" + a.p(11), 10, {"k": "fneg", "a": a.j}, a.t, a.call)


def and_(a, b):
    return E("%s && %s" % (a.p(3), b.p(4)), 3, {"k": "and", "a": a.j, "b": b.j}, BOOL, _c(a, b), a.const and b.const)


def or_(a, b):
    return E("%s || %s" % (a.p(2), b.p(3)), 2, {"k": "or", "a": a.j, "b": b.j}, BOOL, _c(a, b), a.const and b.const)


def not_(a):
    return E("!" + a.p(10), 10, {"k": "not", "a": a.j}, BOOL, a.call, a.const)


def neg(a):
    return E("-" + a.p(11), 10, {"k": "neg", "y": a.t.txt(), "a": a.j}, a.t, a.call, a.const)


def bnot(a):
    return E("~" + a.p(11), 10, {"k": "bnot", "y": a.t.txt(), "a": a.j}, a.t, a.call, a.const)


def cast(a, t):
    """between integer types; or float/int"""
    txt = "(%s : %s)" % (a.txt, t.txt())
    if a.t.kind == "flt":
        if t.kind == "flt":
            return E(txt, 12, a.j, t, a.call)
        return E(txt, 12, {"k": "f2i", "y": t.txt(), "a": a.j}, t, a.call)
    if t.kind == "flt":
        return E(txt, 12, {"k": "i2f", "fy": a.t.txt(), "a": a.j}, t, a.call)
    return E(txt, 12, {"k": "cast", "y": t.txt(), "fy": a.t.txt(), "a": a.j}, t, a.call, a.const)


def tern(c, a, b):
    return E("%s ? %s : %s" % (c.p(2), a.p(2), b.p(2)), 1, {"k": "tern", "c": c.j, "a": a.j, "b": b.j}, a.t, _c(c, a, b), a.const and b.const)


def b2u(b):
    """bool as uint64"""
    return E("(%s) ? 1 : 0" % b.txt, 1,
             {"k": "b2i", "y": "uint64", "a": b.j}, U64, b.call)


def paren(e):
    return E("(" + e.txt + ")", 12, e.j, e.t, e.call, e.const)


def struct_lit(t, given):
    """given: [(field index, E)] in source order"""
    return E("[%s]" % ", ".join(".%s=%s" % (t.fields[i][0], e.txt) for i, e in given), 12,
             {"k": "agg", "ix": [i + 1 for i, _ in given], "es": [e.j for _, e in given], "z": zero(t)}, t,
             _c(*[e for _, e in given]))


def tup_lit(es):
    t = tup(*[e.t for e in es])
    return E("(%s%s)" % (", ".join(e.txt for e in es), "," if len(es) == 1 else ""), 12,
             {"k": "agg", "ix": list(range(1, len(es) + 1)), "es": [e.j for e in es], "z": zero(t)}, t, _c(*es))


def arr_lit(t, es):
    return E("[%s]" % ", ".join(e.txt for e in es), 12,
             {"k": "agg", "ix": list(range(1, len(es) + 1)), "es": [e.j for e in es], "z": zero(t)}, t, _c(*es))


def arr_lit_ix(t, given):
    return E("[%s]" % ", ".join(".[%d]=%s" % (i, e.txt) for i, e in given), 12,
             {"k": "agg", "ix": [i + 1 for i, _ in given], "es": [e.j for _, e in given], "z": zero(t)}, t,
             _c(*[e for _, e in given]))


def un_lit(t, tag, e=None, q=""):
    return E("`%s%s%s" % (q, tag, " " + e.p(11) if e else ""), 10,
             {"k": "un", "t": tag, "e": [e.j] if e else []}, t, e.call if e else False)


def fld(e, i):
    if e.t.kind == "struct":
        n, t = e.t.fields[i]
        txt = "%s.%s" % (e.p(11), n)
    else:
        t = e.t.ts[i]
        txt = "%s.%d" % (e.p(11), i)
    return E(txt, 11, {"k": "fld", "e": e.j, "i": i + 1}, t, e.call)


def pfld(e, i):
    """field through a pointer: lvalue (p#).f"""
    d = deref(e)
    r = fld(d, i)
    r.txt = "%s.%s" % (e.p(11), e.t.t.fields[i][0]) if e.t.t.kind == "struct" else "%s.%d" % (e.p(11), i)
    return r


def idx(e, i):
    """element of an array lvalue or a slice"""
    return E("%s[%s]" % (e.p(11), i.txt), 11,
             {"k": "idx", "on": "slice" if e.t.kind == "slice" else "arr", "e": e.j, "ie": i.j, "y": i.t.txt()},
             e.t.t, _c(e, i))


def deref(e):
    return E("%s#" % e.p(11), 11, {"k": "deref", "e": e.j}, e.t.t, e.call)


def addr(e):
    return E("&%s" % e.p(11), 10, {"k": "addr", "e": e.j}, ptr(e.t), e.call)


def slice_(e, lo, hi):
    b = [x for x in (lo, hi) if x is not None]
    return E("%s[%s:%s]" % (e.p(11), lo.txt if lo else "", hi.txt if hi else ""), 11,
             {"k": "slice", "on": "slice" if e.t.kind == "slice" else "arr", "e": e.j, "b": [x.j for x in b],
              "lo": lo is not None, "hi": hi is not None, "y": b[0].t.txt() if b else "uint64"},
             sl(e.t.t), _c(e, *b))


def len_(e):
    if e.t.kind == "arr":
        return E("%s.len" % e.p(11), 11, {"k": "lit", "v": limbs(e.t.n, 64)}, U64)
    return E("%s.len" % e.p(11), 11, {"k": "len", "e": e.j}, U64, e.call)


def call(f, args, ret, ta=None, eff=True, q=""):
    return E("%s%s(%s)" % (q, f, ", ".join(a.txt for a in args)), 11,
             {"k": "call", "f": f, "es": [a.j for a in args], "ta": {p: term(t) for p, t in (ta or {}).items()}}, ret, eff or _c(*args))


def tcall(f, y, args, ret, q=""):
    return E("%s%s(%s)" % (q, f, ", ".join(a.txt for a in args)), 11,
             {"k": "tcall", "f": f, "y": term(y), "es": [a.j for a in args]}, ret, True)


def callv(g, args):
    return E("%s(%s)" % (g.p(11), ", ".join(a.txt for a in args)), 11,
             {"k": "callv", "e": g.j, "es": [a.j for a in args]}, g.t.ret, True)


def fnref(f, t, ta=None):
    return E(f, 12, {"k": "fn", "f": f, "ta": {p: term(y) for p, y in (ta or {}).items()}}, t)


# --------------------------------------------------------------- statements
class S:
    def __init__(self, lines, j):
        self.lines, self.j = lines, j


def ind(ss):
    return ["\t" + l for s in ss for l in s.lines]


def js(ss):
    return [s.j for s in ss]


def decl(n, e, ty=True, const=False):
    """local variable with initialiser"""
    kw = "const" if const else "var"
    return S(["%s %s%s = %s" % (kw, n, " : " + e.t.txt() if ty else "", e.txt)], {"k": "decl", "n": n, "e": e.j})


def decl2(n, e):
    """declaration and later assignment"""
    return S(["var %s : %s" % (n, e.t.txt()), "%s = %s" % (n, e.txt)], {"k": "decl", "n": n, "e": e.j})


def obs(e):
    """report an integer or bool (as uint64)"""
    if e.t.kind == "bool":
        e = b2u(e)
        return S(["obs(%s)" % e.txt], {"k": "obs", "e": e.j})
    if e.t.kind == "flt":
        e = cast(e, INT["int64"])
    if e.t.txt() != "uint64":
        e = cast(e, U64)
    return S(["obs(%s)" % e.txt], {"k": "obs", "e": e.j})


def expr(e):
    return S([e.txt], {"k": "expr", "e": e.j})


def asn(lv, e):
    return S(["%s = %s" % (lv.txt, e.txt)], {"k": "asn", "lv": lv.j, "e": e.j})


def tasn(lvs, e):
    return S(["(%s%s) = %s" % (", ".join(l.txt if l else "_" for l in lvs), "," if len(lvs) == 1 else "", e.txt)],
             {"k": "tasn", "lvs": [[l.j] if l else [] for l in lvs], "e": e.j})


def opasn(lv, op, e):
    return S(["%s %s= %s" % (lv.txt, op, e.txt)], {"k": "opasn", "lv": lv.j, "op": op, "y": lv.t.txt(), "e": e.j})


def inc(lv, d=1):
    return S(["%s%s" % (lv.p(11), "++" if d == 1 else "--")], {"k": "inc", "lv": lv.j, "d": d, "y": lv.t.txt()})


def asnx(lv, e):
    """assignment as an expression (chained)"""
    return E("%s = %s" % (lv.txt, e.txt), 0, {"k": "asn", "lv": lv.j, "e": e.j}, lv.t, True)


def preinc(lv, d=1):
    return E(("++" if d == 1 else "--") + lv.p(10), 10, {"k": "preinc", "lv": lv.j, "d": d, "y": lv.t.txt()}, lv.t, True)


def postinc(lv, d=1):
    return E(lv.p(11) + ("++" if d == 1 else "--"), 11, {"k": "postinc", "lv": lv.j, "d": d, "y": lv.t.txt()}, lv.t, True)


def auto(n, e):
    """variable whose value is disposed of when its block is left"""
    return S(["var %s : %s = auto %s" % (n, e.t.txt(), e.p(10))], {"k": "auto", "n": n, "e": e.j, "y": term(e.t)})


def eachit(p, e, vt, b):
    """for loop over a user-defined iterable yielding vt"""
    return S(["for %s : %s" % (p.txt, e.txt)] + ind(b) + [";;"],
             {"k": "eachit", "p": p.j, "e": e.j, "b": js(b), "y": term(e.t), "z": zero(vt)})


def forever(b):
    return S(["for ; ; "] + ind(b) + [";;"], {"k": "while", "c": {"k": "lit", "v": True}, "b": js(b)})


def if_(c, t, f=None, elifs=()):
    lines = ["if %s" % c.txt] + ind(t)
    j = js(f) if f else []
    for c2, b in elifs:
        lines += ["elif %s" % c2.txt] + ind(b)
    for c2, b in reversed(list(elifs)):
        j = [{"k": "if", "c": c2.j, "t": js(b), "f": j}]
    if f is not None:
        lines += ["else"] + ind(f)
    return S(lines + [";;"], {"k": "if", "c": c.j, "t": js(t), "f": j})


def while_(c, b):
    return S(["while %s" % c.txt] + ind(b) + [";;"], {"k": "while", "c": c.j, "b": js(b)})


def for_(i, c, st, b):
    return S(["for %s; %s; %s" % ("; ".join(i.lines), c.txt, "; ".join(st.lines))] + ind(b) + [";;"],
             {"k": "for", "i": i.j, "c": c.j, "st": st.j, "b": js(b)})


def each(p, e, b):
    on = "slice" if e.t.kind == "slice" else "arr"
    return S(["for %s : %s" % (p.txt, e.txt)] + ind(b) + [";;"], {"k": "each", "on": on, "p": p.j, "e": e.j, "b": js(b)})


def match(e, arms):
    lines = ["match %s" % e.txt]
    for p, b in arms:
        lines += ["| %s:" % p.txt] + ind(b)
    return S(lines + [";;"], {"k": "match", "e": e.j, "arms": [{"p": p.j, "b": js(b)} for p, b in arms]})


def block(b):
    return S(["if true"] + ind(b) + [";;"], {"k": "block", "b": js(b)})


BRK = S(["break"], {"k": "brk"})
CONT = S(["continue"], {"k": "cont"})


def goto(l):
    return S(["goto %s" % l], {"k": "goto", "l": l})


def label(l):
    return S([":%s" % l], {"k": "label", "l": l})


def ret(e=None):
    if e is None:
        return S(["-> void"], {"k": "ret", "e": []})
    return S(["-> %s" % e.txt], {"k": "ret", "e": [e.j]})


# ----------------------------------------------------------------- patterns
class P:
    def __init__(self, txt, j):
        self.txt, self.j = txt, j


def pwild():
    return P("_", {"k": "wild"})


def pbind(n):
    return P(n, {"k": "bind", "n": n})


def plit(e):
    return P(e.txt, {"k": "lit", "v": e.j["v"]})


def pstr(bs):
    return P(esc(bs), {"k": "str", "v": [[b] for b in bs]})


def ptup(ps):
    return P("(%s%s)" % (", ".join(p.txt for p in ps), "," if len(ps) == 1 else ""),
             {"k": "seq", "ps": [[i + 1, p.j] for i, p in enumerate(ps)]})


def parr(ps):
    return P("[%s]" % ", ".join(p.txt for p in ps), {"k": "seq", "ps": [[i + 1, p.j] for i, p in enumerate(ps)]})


def pstruct(t, given):
    return P("[%s]" % ", ".join(".%s=%s" % (t.fields[i][0], p.txt) for i, p in given),
             {"k": "seq", "ps": [[i + 1, p.j] for i, p in given]})


def patom(p):
    return "(%s)" % p.txt if p.j["k"] == "or" else p.txt


def pun(tag, p=None, q=""):
    return P("`%s%s%s" % (q, tag, " " + patom(p) if p else ""), {"k": "un", "t": tag, "p": [p.j] if p else []})


def pptr(p):
    return P(("& " if p.j["k"] == "ptr" else "&") + patom(p), {"k": "ptr", "p": p.j})


# ----------------------------------------------------------------- programs
class Fn:
    """a named function: params [(name, T)], ret T, body [S]"""
    def __init__(self, name, params, ret, body, generic=False, traits=""):
        self.name, self.params, self.ret, self.body = name, params, ret, body
        self.generic, self.traits = generic, traits
        self.shared = False     # used by several tests

    def lit(self, name_types=True):
        ps = ", ".join("%s : %s" % (n, t.txt()) for n, t in self.params)
        return ["{%s -> %s%s" % (ps, self.ret.txt(), self.traits)] + ind(self.body) + ["}"]

    def text(self):
        l = self.lit()
        l[0] = "%s %s = %s" % ("generic" if self.generic else "const", self.name, l[0])
        return "\n".join(l) + "\n"

    def json(self):
        return {"ps": [n for n, _ in self.params], "body": js(self.body)}


class Lam:
    """a function literal: an expression capturing variables"""
    @staticmethod
    def make(f, caps):
        txt = "\n".join(f.lit())
        return E(txt, 12, {"k": "lam", "f": f.name, "caps": list(caps)}, fn([t for _, t in f.params], f.ret))


class Prog:
    """types, globals, functions, tests (each a list of statements)"""
    def __init__(self):
        self.types, self.globals, self.fns, self.lams, self.tests, self.impls, self.extra = [], [], [], [], [], {}, []
        self.traits = {}        # trait -> one of its functions

    def owned(self, make, n):
        """n tests made by make(k); the functions make(k) adds belong to test k"""
        for k in range(n):
            m = len(self.fns)
            self.tests.append(make(k))
            for f in self.fns[m:]:
                if not f.shared:
                    f.test = k

    def impl(self, f, t, fn, params=(), bounds=()):
        """fn implements trait function f for type t, whose parameters are params"""
        self.impls.setdefault(f, []).append({"pat": term(t, params), "fn": fn, "bounds": [list(b) for b in bounds]})

    def json(self):
        f = {x.name: x.json() for x in self.fns}
        f.update({x.name: x.json() for x in self.lams})
        return {"fns": f, "impls": self.impls, "traits": self.traits, "globals": [{"n": n, "e": e.j} for n, e, _ in self.globals]}

    def text(self, only=None):
        r = self.extra + ["extern const obs : (x : uint64 -> void)\n"]
        r += [t if isinstance(t, str) else tydecl(t) for t in self.types]
        for n, e, const in self.globals:
            r.append("%s %s : %s = %s\n" % ("const" if const else "var", n, e.t.txt(), e.txt))
        only = range(len(self.tests)) if only is None else only if hasattr(only, "__iter__") else [only]
        r += [f.text() for f in self.fns if getattr(f, "test", None) in (None, *only)]
        for i, t in enumerate(self.tests):
            if i not in only:
                continue
            r.append("const test%d = {\n%s\n}\n" % (i, "\n".join(ind(t))))
        r.append("const main = {args : byte[:][:]\n\tvar n = 0\n\tfor c : args[1]\n\t\tn = n * 10 + ((c - ('0' : byte)) : int)\n\t;;\n")
        for i in only:
            r.append("\tif n == %d\n\t\ttest%d()\n\t;;\n" % (i, i))
        r.append("}\n")
        return "".join(r)


def por(ps):
    return P(" || ".join(p.txt for p in ps), {"k": "or", "ps": [p.j for p in ps]})
