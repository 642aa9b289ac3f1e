"""Type checking: spec/Types.tla decides which functions are well typed; the
compiler's verdict on generated functions, right and wrong, is compared."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from L04 import compile_all

INTS = ["int", "byte", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint", "uint32", "uint64", "char"]
FLTS = ["flt32", "flt64"]


def p(n):
    return ("p", n)


INT, BOOL, BYTE, CHAR, VOID = p("int"), p("bool"), p("byte"), p("char"), p("void")


def txt(t):
    k = t[0]
    if k == "p" or k == "name":
        return t[1]
    if k == "ptr":
        return txt(t[1]) + "#"
    if k == "slice":
        return txt(t[1]) + "[:]"
    if k == "array":
        return "%s[%d]" % (txt(t[2]), t[1])
    if k == "tuple":
        return "(%s)" % ", ".join(map(txt, t[1]))
    return "(%s -> %s)" % (", ".join("x%d : %s" % (i, txt(a)) for i, a in enumerate(t[2])), txt(t[1]))


def js(t):
    k = t[0]
    h, n, m, s = k, 0, "", []
    if k == "p":
        h = t[1]
    elif k == "name":
        m = t[1]
    elif k == "ptr" or k == "slice":
        s = [js(t[1])]
    elif k == "array":
        n, s = t[1], [js(t[2])]
    elif k == "tuple":
        s = [js(x) for x in t[1]]
    else:
        s = [js(t[1])] + [js(x) for x in t[2]]
    return {"h": h, "n": n, "m": m, "s": s, "i": 0}


class G:
    def __init__(self, rng):
        self.r = rng
        self.nn = 0
        self.names = {}
        self.order = []
        self.globals = {}
        self.err = 0
        self.lost = []        # variables whose scope has ended
        self.ret = VOID
        self.inlam = 0

    def fresh(self, pre):
        self.nn += 1
        return "%s%d" % (pre, self.nn)

    # ---------------------------------------------------------------- types
    def prim(self):
        r = self.r
        return p(r.choice((["int"] * 4 + INTS + FLTS + ["bool"] * 3 + ["byte", "char"])))

    def ty(self, d=2, fns=True):
        r = self.r
        x = r.random()
        if d == 0 or x < .4:
            return self.prim()
        if x < .6 and self.order:
            return ("name", r.choice(self.order))
        if x < .7:
            return ("ptr", self.ty(d - 1))
        if x < .79:
            return ("slice", self.ty(d - 1))
        if x < .85:
            return ("array", r.choice((1, 2, 3)), self.ty(d - 1))
        if x < .93:
            return ("tuple", tuple(self.ty(d - 1) for _ in range(r.choice((2, 2, 3)))))
        if fns:
            return ("fn", self.ty(d - 1) if r.random() < .8 else VOID, tuple(self.ty(d - 1) for _ in range(r.randrange(3))))
        return self.prim()

    def deftypes(self):
        r = self.r
        for _ in range(r.randrange(2, 6)):
            x = r.random()
            if x < .4:
                n = self.fresh("st")
                self.names[n] = ("struct", [(r.choice("abcdlen") + str(i) if r.random() < .9 else "len", self.ty(2)) for i in range(r.randrange(1, 4))])
                ms = {m: t for m, t in self.names[n][1]}
                self.names[n] = ("struct", list(ms.items()))
            elif x < .7:
                n = self.fresh("un")
                self.names[n] = ("union", [(self.fresh("T"), self.ty(2) if r.random() < .6 else None) for i in range(r.randrange(1, 4))])
            else:
                n = self.fresh("al")
                t = self.ty(2)
                if t[0] == "name" and self.names[t[1]][0] == "union":
                    t = self.prim()
                self.names[n] = ("alias", t)
            self.order.append(n)

    def under(self, t):
        while t[0] == "name" and self.names[t[1]][0] == "alias":
            t = self.names[t[1]][1]
        return t

    def d(self, t):
        """(kind, payload) of the definition under a named type"""
        u = self.under(t)
        return self.names[u[1]] if u[0] == "name" else (None, None)

    def like(self, t):
        """a type that might be mistaken for t"""
        r = self.r
        for _ in range(8):
            x = r.random()
            if x < .3:
                n = self.prim()
            elif x < .5:
                n = self.ty(2)
            elif x < .6:
                n = ("ptr", t)
            elif x < .65:
                n = ("slice", t)
            elif x < .75 and t[0] in ("ptr", "slice"):
                n = t[1]
            elif x < .8 and t[0] == "array":
                n = r.choice((("array", t[1] + 1, t[2]), ("slice", t[2]), t[2]))
            elif x < .9 and t[0] == "tuple":
                ts = list(t[1])
                i = r.randrange(len(ts))
                ts[i] = self.like(ts[i])
                if r.random() < .2:
                    ts.append(INT)
                n = ("tuple", tuple(ts))
            elif t[0] == "fn":
                if t[2] and r.random() < .5:
                    n = ("fn", t[1], t[2][:-1])
                else:
                    n = ("fn", self.like(t[1]) if t[1] != VOID else INT, t[2])
            elif t[0] == "name":
                same = [("name", m) for m in self.order if self.names[m][0] == self.names[t[1]][0]]
                n = r.choice(same)
                if self.names[t[1]][0] == "alias" and r.random() < .5:
                    n = self.names[t[1]][1]
            else:
                al = [("name", m) for m in self.order if self.names[m][0] == "alias" and self.names[m][1] == t]
                n = r.choice(al) if al else self.prim()
            if n != t:
                return n
        return self.prim()

    def bad(self, rate=.03):
        if self.err > 0 and self.r.random() < rate:
            self.err -= 1
            return True
        return False

    # ----------------------------------------------------------- expressions
    def e(self, k, s=(), **kw):
        return dict({"k": k, "s": list(s)}, **kw)

    def glob(self, t):
        """a global of type t"""
        r = self.r
        have = [n for n, (u, c) in self.globals.items() if u == t]
        if have and r.random() < .7:
            return r.choice(have)
        n = self.fresh("g")
        self.globals[n] = (t, t[0] == "fn" and r.random() < .8 or r.random() < .3)
        return n

    def var(self, t, env):
        r = self.r
        if self.bad(.02):
            n = r.choice(self.lost) if self.lost and r.random() < .7 else self.fresh("nope")
            return n, self.e("var", n=n)
        vs = [n for n, (u, c) in env.items() if u == t]
        n = r.choice(vs) if vs and r.random() < .8 else self.glob(t)
        return n, self.e("var", n=n)

    def lval(self, t, env, d):
        r = self.r
        x = r.random()
        if x < .5:
            if not self.bad(.1):
                vs = [n for n, (u, c) in env.items() if u == t and not c]
                vs = vs or [n for n, (u, c) in self.globals.items() if u == t and not c]
                if not vs:
                    n = self.fresh("g")
                    self.globals[n] = (t, False)
                    vs = [n]
                n = r.choice(vs)
                return n, self.e("var", n=n)
            return self.expr(t, env, d)
        if x < .6:
            a, j = self.expr(("ptr", t), env, d - 1)
            return "%s#" % a, self.e("deref", [j])
        if x < .75:
            return self.index(t, env, d)
        return self.member(t, env, d) or self.index(t, env, d)

    def index(self, t, env, d):
        r = self.r
        bt = ("slice", t) if r.random() < .6 else ("array", r.choice((1, 2, 3)), t)
        if r.random() < .1:
            al = [("name", n) for n in self.order if self.names[n][0] == "alias" and self.under(("name", n)) == bt]
            bt = r.choice(al) if al else bt
        a, j = self.var(bt, env) if r.random() < .7 else self.expr(bt, env, d - 1)
        b, k = self.expr(r.choice((INT, INT, p(r.choice(INTS)))), env, d - 1)
        return "%s[%s]" % (a, b), self.e("idx", [j, k])

    def member(self, t, env, d):
        r = self.r
        ms = [("name", n) for n in self.order if self.d(("name", n))[0] == "struct" and any(u == t for _, u in self.d(("name", n))[1])]
        if ms and r.random() < .7:
            st = r.choice(ms)
            m = r.choice([m for m, u in self.d(st)[1] if u == t])
            if self.bad(.1):
                m = r.choice([m for m, u in self.d(r.choice(ms))[1]] + ["zz", "len", m + "x"])
            base = st if r.random() < .6 else ("ptr", st)
            a, j = self.expr(base, env, d - 1)
            return "%s.%s" % (a, m), self.e("memb", [j], n=m)
        if r.random() < .4:
            ts = [t] + [self.ty(1) for _ in range(r.choice((1, 1, 2)))]
            r.shuffle(ts)
            tt = ("tuple", tuple(ts))
            i = ts.index(t)
            if self.bad(.1):
                i += r.choice((1, -1, 5)) if i > 0 else 1
            a, j = self.expr(tt if r.random() < .7 else ("ptr", tt), env, d - 1)
            return "%s.%d" % (paren(a), i), self.e("tmemb", [j], j=i)
        return None

    def expr(self, t, env, d):
        if self.bad():
            t = self.like(t)
        x, j = self.expr1(t, env, max(d, 0))
        return x, j

    def expr1(self, t, env, d):
        r = self.r
        if d == 0 or r.random() < .15:
            return self.leaf(t, env)
        x = r.random()
        u = self.under(t)
        if x < .12:
            return self.call(t, env, d)
        if x < .2:
            m = self.member(t, env, d)
            if m:
                return m
        if x < .26:
            return self.index(t, env, d)
        if x < .3:
            a, j = self.expr(("ptr", t), env, d - 1)
            return "%s#" % a, self.e("deref", [j])
        if x < .36:
            c, cj = self.expr(BOOL, env, d - 1)
            a, aj = self.expr(t, env, d - 1)
            b, bj = self.expr(t, env, d - 1)
            return "(%s ? %s : %s)" % (c, a, b), self.e("tern", [cj, aj, bj])
        if x < .4:
            c = self.castable(t)
            if c:
                a, j = self.expr(c, env, d - 1)
                return "(%s : %s)" % (a, txt(t)), self.e("cast", [j], t=js(t))
        if x < .43 and t != VOID:
            a, j = self.lval(t, env, d - 1)
            b, k = self.expr(t, env, d - 1)
            return "(%s = %s)" % (a, b), self.e("asn", [j, k], n="=")
        if u[0] == "p":
            return self.primexpr(u[1], t, env, d)
        if u[0] == "ptr":
            if x < .7:
                a, j = self.lval(u[1], env, d - 1)
                return "(&%s)" % a, self.e("addr", [j])
        if u[0] == "slice" and x < .75:
            bt = r.choice((u, ("array", 3, u[1]), ("ptr", u[1])))
            a, j = self.var(bt, env)
            lo, lj = self.expr(p(r.choice(["int"] * 4 + INTS)), env, d - 1)
            hi, hj = self.expr(p(r.choice(["int"] * 4 + INTS)), env, d - 1)
            return "%s[%s:%s]" % (a, lo, hi), self.e("slice", [j, lj, hj], j=0)
        if u[0] == "array" and u == t:
            n = u[1] + (r.choice((1, -1)) if self.bad(.1) else 0)
            es = [self.expr(u[2], env, d - 1) for _ in range(max(n, 1))]
            return "[%s]" % ", ".join(a for a, _ in es), self.e("arr", [j for _, j in es])
        if u[0] == "tuple" and u == t:
            es = [self.expr(a, env, d - 1) for a in u[1]]
            return "(%s)" % ", ".join(a for a, _ in es), self.e("tup", [j for _, j in es])
        if u[0] == "name":
            k, ms = self.d(u)
            if k == "struct":
                given = [m for m in ms if r.random() < .8] or ms[:1]
                r.shuffle(given)
                es = [(m, self.expr(a, env, d - 1)) for m, a in given]
                if self.bad(.1):
                    es[0] = (r.choice(("zz", "len", es[0][0] + "y")), es[0][1])
                return ("[%s]" % ", ".join(".%s=%s" % (m, e[0]) for m, e in es),
                        self.e("slit", [e[1] for _, e in es], ms=[m for m, _ in es]))
            if k == "union" and u == t:
                return self.ucon(ms, env, d)
        if u[0] == "fn" and u == t and self.inlam < 2:
            return self.lam(t, env, d)
        return self.leaf(t, env)

    def ucon(self, ms, env, d):
        r = self.r
        tag, a = r.choice(ms)
        if self.bad(.1):
            y = r.random()
            if y < .3:
                tag = self.fresh("T")
            elif y < .6:
                a = None if a else INT
            else:
                o = [m for n in self.order if self.names[n][0] == "union" for m in self.names[n][1]]
                tag = r.choice(o)[0]
        if a is None:
            return "(`%s)" % tag, self.e("ucon", [], n=tag)
        x, j = self.expr(a, env, d - 1)
        return "(`%s %s)" % (tag, x), self.e("ucon", [j], n=tag)

    def lam(self, t, env, d):
        r = self.r
        ps, env1 = [], dict(env)
        for a in t[2]:
            n = self.fresh("p")
            ty = [a] if r.random() < .7 else []
            if ty and self.bad(.05):
                ty = [self.like(a)]
            ps.append((n, ty))
            env1[n] = (a, False)
        if self.bad(.05):
            ps.append((self.fresh("p"), [INT]))
        rt = [t[1]] if r.random() < .5 else []
        if rt and self.bad(.05):
            rt = [self.like(t[1])]
        self.inlam += 1
        keep = self.ret
        self.ret = t[1]
        body, bj = self.stmts(env1, 0, r.randrange(2))
        if t[1] != VOID:
            x, j = self.expr(t[1], env1, d - 1)
            body.append("-> %s" % x)
            bj.append({"k": "ret", "e": [j]})
        self.ret = keep
        self.inlam -= 1
        self.lost += [n for n, _ in ps]
        return ("{%s%s;%s}" % (", ".join(n + (" : " + txt(ty[0]) if ty else "") for n, ty in ps),
                               " -> " + txt(rt[0]) if rt else "", "".join(" %s ;" % b for b in body)),
                self.e("lam", ps=[{"n": n, "t": [js(a) for a in ty], "i": 0} for n, ty in ps], t=[js(a) for a in rt], j=0, b=bj))

    def castable(self, t):
        r = self.r
        u = self.under(t)
        if u[0] == "p" and u[1] in INTS + FLTS:
            o = p(r.choice(INTS + FLTS))
        elif u[0] == "ptr":
            o = r.choice((("ptr", self.ty(1)), p("int64"), p("uint64"), ("slice", self.ty(1))))
        elif u != t:
            o = u
        else:
            al = [("name", n) for n in self.order if self.under(("name", n)) == t and ("name", n) != t]
            if not al:
                return None
            o = r.choice(al)
        al = [("name", n) for n in self.order if self.names[n][0] == "alias" and self.under(("name", n)) == o]
        return r.choice(al) if al and r.random() < .4 else o

    def call(self, t, env, d):
        r = self.r
        fs = [(n, self.under(u)) for n, (u, c) in list(env.items()) + list(self.globals.items()) if self.under(u)[0] == "fn" and self.under(u)[1] == t]
        if fs and r.random() < .8:
            n, ft = r.choice(fs)
        else:
            ft = ("fn", t, tuple(self.ty(1) for _ in range(r.randrange(4))))
            al = [("name", n) for n in self.order if self.names[n][0] == "alias" and self.under(("name", n))[0] == "fn" and self.under(("name", n))[1] == t]
            if al and r.random() < .5:
                at = r.choice(al)
                ft = self.under(at)
                n = self.glob(at)
            else:
                n = self.glob(ft)
        args = list(ft[2])
        if self.bad(.06):
            if args and r.random() < .5:
                args.pop(r.randrange(len(args)))
            else:
                args.insert(r.randrange(len(args) + 1), INT)
        if self.bad(.02):
            n = self.glob(t)
        es = [self.expr(a, env, d - 1) for a in args]
        return "%s(%s)" % (n, ", ".join(a for a, _ in es)), self.e("call", [self.e("var", n=n)] + [j for _, j in es])

    def primexpr(self, h, t, env, d):
        r = self.r
        if h == "bool" and t == BOOL:
            x = r.random()
            if x < .5:
                ot = self.ty(1) if r.random() < .2 else p(r.choice(INTS + FLTS))
                if self.under(ot)[0] not in ("p", "ptr"):
                    en = [("name", n) for n in self.order if self.names[n][0] == "union" and all(a is None for _, a in self.names[n][1])]
                    ot = r.choice(en) if en else INT
                eqonly = self.under(ot)[0] != "p" or self.under(ot)[1] == "bool"
                op = r.choice(("==", "!=") if eqonly and not self.bad(.1) else ("==", "!=", "<", "<=", ">", ">="))
                if self.bad(.05):
                    ot = self.ty(2)
                a, j = self.expr(ot, env, d - 1)
                b, k = self.expr(ot, env, d - 1)
                return "(%s %s %s)" % (a, op, b), self.e("bin", [j, k], n=op)
            if x < .85:
                op = r.choice(("&&", "||"))
                ot = INT if self.bad(.1) else BOOL
                a, j = self.expr(ot, env, d - 1)
                b, k = self.expr(ot, env, d - 1)
                return "(%s %s %s)" % (a, op, b), self.e("bin", [j, k], n=op)
            a, j = self.expr(BOOL, env, d - 1)
            return "(!%s)" % a, self.e("un", [j], n="!")
        if h in INTS + FLTS:
            x = r.random()
            ops = ["+", "-", "*", "/"] + (["%", "&", "|", "^", "<<", ">>"] if h in INTS or self.bad(.05) else [])
            if x < .6:
                op = r.choice(ops)
                a, j = self.expr(t, env, d - 1)
                b, k = self.expr(t, env, d - 1)
                return "(%s %s %s)" % (a, op, b), self.e("bin", [j, k], n=op)
            if x < .75:
                op = r.choice(("-", "~")) if h in INTS or self.bad(.05) else "-"
                a, j = self.expr(t, env, d - 1)
                return "(%s%s)" % (op, a), self.e("un", [j], n=op)
            if x < .85 and h in INTS:
                ct = ("slice", self.ty(1)) if r.random() < .6 else ("array", 2, self.ty(1))
                un = [("name", n) for n in self.order if self.names[n][0] == "union"]
                if un and r.random() < .3:
                    a, j = self.var(r.choice(un), env)
                    return "%s.tag" % a, self.e("memb", [j], n="tag")
                m = "len"
                if self.bad(.1):
                    m = r.choice(("length", "tag", "a0"))
                a, j = self.var(ct if not self.bad(.05) else ("ptr", ct), env)
                return "%s.%s" % (a, m), self.e("memb", [j], n=m)
            if h in INTS or self.bad(.05):
                a, j = self.lval(t, env, d - 1)
                f = r.choice(("(%s++)", "(%s--)", "(++%s)", "(--%s)"))
                return f % a, self.e("inc", [j])
        return self.leaf(t, env)

    def leaf(self, t, env):
        r = self.r
        u = self.under(t)
        if u[0] == "p" and r.random() < .6:
            h = u[1]
            if h == "bool" and t == BOOL:
                b = r.choice(("true", "false"))
                return b, self.e("bool")
            if h == "char" and t == CHAR and r.random() < .8:
                return "'%s'" % r.choice("abz"), self.e("chr")
            if h in INTS:
                return str(r.randrange(1, 6)), self.e("int")
            if h in FLTS:
                return r.choice(("1.5", "2.0")), self.e("flt")
        if t == ("slice", BYTE) and r.random() < .5:
            return '"ab"', self.e("str")
        if u[0] == "name" and self.d(u)[0] == "union" and u == t:
            nul = [g for g, a in self.d(u)[1] if a is None]
            if nul and r.random() < .6:
                n = r.choice(nul)
                return "(`%s)" % n, self.e("ucon", [], n=n)
        return self.var(t, env)

    # ------------------------------------------------------------ statements
    def decl(self, env, d):
        r = self.r
        t = self.ty(2)
        n = self.fresh("v")
        x, j = self.expr(t, env, d)
        ty = [t] if r.random() < .5 or x.startswith("[.") else []
        if ty and self.bad(.08):
            ty = [self.like(t)]
        cst = j["k"] in ("int", "flt", "chr", "str", "bool", "lam") and r.random() < .5
        env[n] = (t, cst)
        # a constant initialised by a function literal is another kind of declaration
        return ("%s %s%s = %s" % ("const" if cst else "var", n, " : " + txt(ty[0]) if ty else "", x),
                {"k": "var", "n": n, "i": 0, "t": [js(a) for a in ty], "e": [j], "cst": int(cst)})

    def pat(self, t, env, refut=False, d=2):
        """text, json; adds to env what is bound"""
        r = self.r
        if self.bad(.08):
            t = self.like(t)
        u = self.under(t)
        if u[0] == "p" and u[1] in INTS and (refut or r.random() < .3):
            if u[1] == "char" and t == CHAR:
                return "'%s'" % r.choice("abc"), self.e("chr")
            return str(r.randrange(50)), self.e("int")
        if t == BOOL and (refut or r.random() < .2):
            return "true", self.e("bool")
        if u[0] == "tuple" and t == u and d > 0 and (refut or r.random() < .5):
            k = r.randrange(len(u[1]))
            ps = [self.pat(a, env, refut and i == k, d - 1) for i, a in enumerate(u[1])]
            return "(%s)" % ", ".join(a for a, _ in ps), self.e("tup", [j for _, j in ps])
        if u[0] == "name" and u == t and self.d(u)[0] == "union" and d > 0 and (refut or r.random() < .3):
            tag, a = r.choice(self.d(u)[1])
            if self.bad(.1):
                a = None if a else INT
            if a is None:
                return "`%s" % tag, self.e("ucon", [], n=tag)
            x, j = self.pat(a, env, False, d - 1)
            return "`%s %s" % (tag, x), self.e("ucon", [j], n=tag)
        if u[0] == "name" and self.d(u)[0] == "struct" and d > 0 and r.random() < .4:
            m, a = r.choice(self.d(u)[1])
            if self.bad(.1):
                m = "zz"
            x, j = self.pat(a, env, refut, d - 1)
            return "[.%s=%s]" % (m, x), self.e("slit", [j], ms=[m])
        if r.random() < .7:
            n = self.fresh("b")
            env[n] = (t, False)
            return n, self.e("bind", n=n)
        return "_", self.e("gap")

    def refutable(self, t):
        u = self.under(t)
        return (u[0] == "p" and u[1] in INTS or t == BOOL or u[0] == "name" and u == t and self.d(u)[0] == "union" and len(self.d(u)[1]) > 1
                or u[0] == "tuple" and u == t and all(self.refutable(a) for a in u[1]))

    def block(self, env, d, n):
        e1 = dict(env)
        b, j = self.stmts(e1, d, n)
        self.lost += [x for x in e1 if x not in env]
        return b, j

    def stmts(self, env, d, n):
        """lists of texts and json; env is extended"""
        r = self.r
        out, oj = [], []
        for _ in range(n):
            x = r.random()
            if x < .4 or d == 0 and x < .7:
                a, j = self.decl(env, r.choice((1, 2, 3)))
            elif x < .6 or d == 0:
                y = r.random()
                if y < .6:
                    t = self.ty(2)
                    h = self.under(t)
                    op = "="
                    if h[0] == "p" and h[1] in INTS + FLTS and r.random() < .5:
                        op = r.choice(("+=", "-=", "*=", "/=") + (("%=", "&=", "|=", "^=", "<<=", ">>=") if h[1] in INTS or self.bad(.1) else ()))
                    a, j = self.lval(t, env, 2)
                    b, k = self.expr(t, env, 2)
                    a, j = "%s %s %s" % (a, op, b), {"k": "expr", "e": [self.e("asn", [j, k], n=op)]}
                elif y < .7:
                    t1, t2 = self.ty(1), self.ty(1)
                    (a, j), (b, k) = self.lval(t1, env, 1), self.lval(t2, env, 1)
                    c, m = self.expr(("tuple", (t1, t2)), env, 2)
                    a, j = "(%s, %s) = %s" % (a, b, c), {"k": "expr", "e": [self.e("dasn", [j, k, m])]}
                else:
                    a, j = self.call(VOID if r.random() < .6 else self.ty(1), env, 2)
                    j = {"k": "expr", "e": [j]}
            elif x < .7:
                c, cj = self.expr(BOOL if not self.bad(.05) else INT, env, 2)
                b1, j1 = self.block(env, d - 1, r.randrange(3))
                b2, j2 = self.block(env, d - 1, r.randrange(1, 3)) if r.random() < .5 else ([], [])
                a = "if %s\n%s%s;;" % (c, ind(b1), "else\n" + ind(b2) if b2 else "")
                j = {"k": "if", "e": [cj], "a": j1, "b": j2}
            elif x < .76:
                c, cj = self.expr(BOOL if not self.bad(.05) else INT, env, 2)
                b1, j1 = self.block(env, d - 1, r.randrange(3))
                a, j = "while %s\n%s;;" % (c, ind(b1)), {"k": "while", "e": [cj], "a": j1}
            elif x < .82:
                e1 = dict(env)
                dt, dj = self.decl(e1, 1)
                c, cj = self.expr(BOOL, e1, 2)
                s, sj = self.expr(self.prim(), e1, 1)
                b1, j1 = self.block(e1, d - 1, r.randrange(3))
                self.lost += [y for y in e1 if y not in env]
                a, j = "for %s; %s; %s\n%s;;" % (dt, c, s, ind(b1)), {"k": "for", "d": dj, "e": [cj, sj], "a": j1}
            elif x < .9:
                t = self.ty(1)
                st = ("slice", t) if r.random() < .6 else ("array", 2, t)
                if self.bad(.1):
                    st = r.choice((t, ("ptr", t)))
                e, ej = self.expr(st, env, 1)
                e1 = dict(env)
                pt, pj = self.pat(t, e1)
                b1, j1 = self.block(e1, d - 1, r.randrange(3))
                self.lost += [y for y in e1 if y not in env]
                a, j = "for %s : %s\n%s;;" % (pt, e, ind(b1)), {"k": "iter", "p": pj, "e": [ej], "a": j1}
            elif x < .97:
                for _ in range(6):
                    t = self.ty(2)
                    if self.refutable(t):
                        break
                else:
                    t = BOOL
                e, ej = self.expr(t, env, 2)
                e1 = dict(env)
                pt, pj = self.pat(t, e1, True)
                b1, j1 = self.block(e1, d - 1, r.randrange(3))
                self.lost += [y for y in e1 if y not in env]
                b2, j2 = self.block(env, d - 1, r.randrange(2))
                a = "match %s\n| %s:\n%s| _:\n%s;;" % (e, pt, ind(b1), ind(b2))
                j = {"k": "match", "e": [ej], "arms": [{"p": pj, "a": j1}, {"p": self.e("gap"), "a": j2}]}
                if catchall(pj):
                    a = "match %s\n| %s:\n%s;;" % (e, pt, ind(b1))
                    j["arms"].pop()
            else:
                if self.ret == VOID:
                    continue
                c, cj = self.expr(BOOL, env, 1)
                e, ej = self.expr(self.ret, env, 2)
                a = "if %s\n\t-> %s\n;;" % (c, e)
                j = {"k": "if", "e": [cj], "a": [{"k": "ret", "e": [ej]}], "b": []}
            out.append(a)
            oj.append(j)
        return out, oj


def catchall(p):
    return p["k"] in ("bind", "gap") or p["k"] in ("tup", "slit") and all(catchall(x) for x in p["s"])


def paren(a):
    return "(%s)" % a if a[:1].isdigit() else a


def ind(b):
    return "".join("\t%s\n" % x.replace("\n", "\n\t") for x in b)


def number(x, cnt):
    """give every type variable a number"""
    if isinstance(x, list):
        for y in x:
            number(y, cnt)
    elif isinstance(x, dict) and "h" not in x:
        if "s" in x or x.get("k") == "var" or "n" in x and "t" in x:
            cnt[0] += 1
            x["i"] = cnt[0]
        if x.get("k") in ("lam", "slice"):
            cnt[0] += 1
            x["j"] = cnt[0]
        for f, y in x.items():
            if f not in ("i", "j", "t"):
                number(y, cnt)


def case(rng):
    g = G(rng)
    r = rng
    g.deftypes()
    g.err = r.choice((0, 0, 0, 0, 1, 1, 1, 2))
    params = [(g.fresh("a"), g.ty(2)) for _ in range(r.randrange(4))]
    g.ret = g.ty(2) if r.random() < .7 else VOID
    env = {n: (t, False) for n, t in params}
    body, bj = g.stmts(env, 2, r.choice((1, 2, 3, 4, 6)))
    if g.ret != VOID:
        x, j = g.expr(g.ret, env, 3)
        body.append("-> %s" % x)
        bj.append({"k": "ret", "e": [j]})
    elif g.bad(.1):
        x, j = g.expr(INT, env, 1)
        body.append("-> %s" % x)
        bj.append({"k": "ret", "e": [j]})
    src = ""
    names = {}
    for n in g.order:
        k, v = g.names[n]
        if k == "struct":
            src += "type %s = struct\n%s;;\n" % (n, "".join("\t%s : %s\n" % (m, txt(t)) for m, t in v))
            names[n] = {"k": k, "ms": [[m, [js(t)]] for m, t in v]}
        elif k == "union":
            src += "type %s = union\n%s;;\n" % (n, "".join("\t`%s%s\n" % (m, " " + txt(t) if t else "") for m, t in v))
            names[n] = {"k": k, "ms": [[m, [js(t)] if t else []] for m, t in v]}
        else:
            src += "type %s = %s\n" % (n, txt(v))
            names[n] = {"k": k, "t": js(v)}
    for n, (t, c) in g.globals.items():
        src += "extern %s %s : %s\n" % ("const" if c else "var", n, txt(t))
    src += "const fn = {%s -> %s\n%s}\nconst main = {\n\tvar p\n\tp = fn\n}\n" % (
        ", ".join("%s : %s" % (n, txt(t)) for n, t in params), txt(g.ret), ind(body))
    cnt = [0]
    number(bj, cnt)
    names["_"] = {"k": "none"}
    row = {"names": names, "globals": [{"n": n, "t": js(t), "cst": int(c)} for n, (t, c) in g.globals.items()],
           "params": [{"n": n, "t": js(t)} for n, t in params], "ret": js(g.ret), "body": bj, "nv": cnt[0], "got": None}
    return row, src


def check(c):
    c.build(libs=False)
    cases = [case(c.rng) for _ in range(c.n(2500, 40000))]
    got = compile_all(c, [s for _, s in cases])
    stat = {}
    for (row, src), (g, out) in zip(cases, got):
        row["got"] = g
        stat[g] = stat.get(g, 0) + 1
    c.note(stat)
    c.extra["verdicts"] = stat
    r = c.traces_ok("Types", [row for row, _ in cases], xss="512m")
    c.sample({"source": cases[0][1], "verdict": got[0][0]})
    if r:
        i = r["t"] - 1
        c.violation("the compiler's verdict is %s" % got[i][0], "source:\n%s\ncompiler: %s\nspecification: %s" % (
            cases[i][1], got[i][1].decode("utf8", "replace"), r["state"]))


if __name__ == "__main__":
    vlib.main(check, "L10")
