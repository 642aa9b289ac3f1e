"""Values stay what they are: many arguments, many live values, across calls."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from myrast import *
from myrrun import run_progs
from L08 import AGen

VMAX = 1000         # magnitude of what float variables hold: floats are exact here
FLTS = (FLT64, FLT32)


class LGen(AGen):
    """adds floats, long argument lists, much pressure on registers, recursion"""
    pflt = .2

    def fscalar(self):
        return self.r.choice(FLTS) if self.r.random() < self.pflt else self.r.choice(self.tys)

    def scalar(self):
        if self.r.random() < self.pflt:
            return self.r.choice(FLTS)
        return super().scalar()

    def value(self, t):
        if t.kind == "flt":
            r = self.r
            return r.choice([0, 1, -1, 2, 3, 7, -500, 999, 250, r.randint(-VMAX, VMAX), r.randint(-VMAX, VMAX)])
        return super().value(t)

    def lit(self, t, v, pre):
        if t.kind == "flt":
            return flit(v, t)
        return super().lit(t, v, pre)

    def show(self, e, t=None):
        t = t or e.t
        return [obs(e)] if t.kind == "flt" else super().show(e, t)

    def pat(self, t, d, binds, b=True, wild=.25):
        if t.kind == "flt":
            return super().pat(t, 0, binds, b, wild)
        return super().pat(t, d, binds, b, wild)

    # floats: an expression bounded by b in magnitude
    def fexpr(self, t, d, b=VMAX):
        r = self.r
        x = r.random()
        vs = self.reads(t) if b >= VMAX else []
        if d <= 0 or x < .2 or b < 4:
            if vs and r.random() < .8:
                return r.choice(vs)
            return flit(r.randint(-min(b, VMAX), min(b, VMAX)), t)
        if x < .35 and b >= VMAX:
            fs = self.callable(t)
            if fs and not self.nocall:
                return self.callf(r.choice(fs), d - 1)
        if x < .45 and not self.nocall:
            return call(self.eff(t), [self.tag(), self.fexpr(t, d - 1, min(b, VMAX))], t)
        if x < .55:
            m = max(k for k in (1, 3, 7, 15, 31, 63, 127) if k <= b)
            # to floats from integers of any type
            return cast(self.masked(d - 1, m), t)
        if x < .62:
            u = FLT32 if t == FLT64 else FLT64
            return cast(self.ffix(self.fexpr(u, d - 1, b), u), t)
        if x < .7:
            return fneg(self.ffix(self.fexpr(t, d - 1, b), t))
        if x < .78:
            return paren(tern(self.cond(1), self.ffix(self.fexpr(t, d - 1, b), t), self.fexpr(t, d - 1, b)))
        op = r.choice("+-*")
        if op == "*":
            q = int(b ** .5)
            c, e = self.fexpr(t, d - 1, q), self.fexpr(t, d - 1, q)
        else:
            c, e = self.fexpr(t, d - 1, b // 2), self.fexpr(t, d - 1, b // 2)
        if not anch(c) and not anch(e):
            c = self.ffix(c, t)
        return paren(fbin(op, c, e))

    def ffix(self, e, t):
        if anch(e):
            return e
        vs = self.vars(t)
        if vs:
            return self.r.choice(vs)
        if self.nocall:
            return cast(self.masked(0, 1), t)
        return call(self.eff(t), [self.tag(), e], t)

    def masked(self, d, m):
        u = self.r.choice(self.tys)
        return bin_("&", self.atom(u, d), ilit(m, u))

    def expr(self, t, d=3):
        if t.kind == "flt":
            old = self.env
            self.env = [x for x in old if self.visible(x[0], x[1])]
            e = self.fexpr(t, d)
            self.env = old
            return e
        if t.kind == "int" and d > 0 and self.r.random() < .06:
            f = self.r.choice(FLTS)
            w, s = INTS[t.name]
            old = self.env
            self.env = [x for x in old if self.visible(x[0], x[1])]
            e = self.ffix(self.fexpr(f, d - 1, 1 << 20), f)
            self.env = old
            # in range of the result type only if that has 32 bits, signed
            return cast(e, t) if w >= 32 and s else cast(cast(e, INT["int"]), t)
        return super().expr(t, d)

    def cond(self, d=3):
        if d > 0 and self.r.random() < .1:
            t = self.r.choice(FLTS)
            b = self.r.choice((8, VMAX, 1 << 20))
            a, c = self.ffix(self.fexpr(t, d - 1, b), t), self.fexpr(t, d - 1, b)
            return fcmp(self.r.choice(["==", "!=", "<", "<=", ">", ">="]), a, c)
        return super().cond(d)

    # ---------------------------------------------------------- statements
    def stmt2(self, d):
        if d > 0 and self.cost < 250 and self.r.random() < .35:
            self.cost += self.mult
            self.incd = set()
            return getattr(self, "s_" + self.r.choice(["live", "wide", "wide", "fobs", "fdecl", "many"]))(d)
        return super().stmt2(d)

    def s_fobs(self, d):
        t = self.r.choice(FLTS)
        e = self.ffix(self.fexpr(t, 3, 1 << 20), t)
        return [obs(e)]

    def s_fdecl(self, d):
        t = self.r.choice(FLTS)
        n = self.name("x")
        e = self.expr(t)
        self.env.append((n, t, True))
        return [decl(n, e)]

    def s_live(self, d):
        """many variables written before, and read after, something that calls"""
        r = self.r
        n = r.randint(4, 18)
        out, vs = [], []
        for _ in range(n):
            t = self.fscalar()
            m = self.name("v")
            out.append(decl(m, self.expr(t, 1)))
            vs.append((m, t))
            self.env.append((m, t, True))
        self.cost += 2 * n * self.mult
        self.shared = False
        for _ in range(r.randint(0, 2)):
            out += self.s_call(d) if r.random() < .5 else self.stmt2(0) if r.random() < .5 else self.s_obs(d)
        r.shuffle(vs)
        for m, t in vs:
            out.append(obs(var(m, t)))
        return out

    def s_wide(self, d):
        """one expression with many operands alive at the same time"""
        r = self.r
        t = self.fscalar()
        k = r.choice((4, 8, 12, 16, 24))
        b = (1 << 22) // k
        # names to read: operands that have to be fetched first
        def leaf():
            if t.kind == "flt":
                return self.ffix(self.fexpr(t, r.choice((0, 1, 2)), min(b, VMAX)), t)
            return self.atom(t, r.choice((0, 0, 1, 2)))

        def tree(n, right):
            if n == 1:
                return leaf()
            m = 1 if right else r.randint(1, n - 1)
            x, y = tree(m, right), tree(n - m, right)
            if t.kind == "flt":
                return paren(fbin(r.choice("+-"), x, y))
            op = r.choice(["+", "-", "^", "+", "-", "*", "|", "&"])
            return paren(bin_(op, x, y))
        self.cost += k * self.mult
        return [obs(tree(k, r.random() < .5))]

    def s_many(self, d):
        """a call with many arguments"""
        fs = [f for f in self.fns if len(f[1]) > 6 and f[3] * self.mult <= 150]
        if not fs or self.shared:
            return self.s_wide(d)
        f = self.r.choice(fs)
        n = self.name("r")
        e = self.callf(f, 2)
        self.cost += len(f[1]) * self.mult
        self.env.append((n, f[2], True))
        return [decl(n, e)] + self.sees(var(n, f[2]))

    def sees(self, e):
        return [obs(e)] if e.t.kind == "flt" else super().sees(e)

    # ----------------------------------------------------------- functions
    def argtys(self):
        r = self.r
        n = r.choice((0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24))
        style = r.random()
        if style < .25:
            return [r.choice(self.tys) for _ in range(n)]
        if style < .4:
            return [r.choice(FLTS) for _ in range(n)]
        return [r.choice(self.atys) if r.random() < .25 else BOOL if r.random() < .1 else self.fscalar() for _ in range(n)]

    def showargs(self, ps):
        out = []
        ps = list(ps)
        if self.r.random() < .5:
            self.r.shuffle(ps)
        for p, t in ps:
            out += self.sees(var(p, t))
        return out

    def function(self, n=None, d=2, rt=None, argtys=None):
        """reports its arguments at the start, in the middle or at the end"""
        r = self.r
        args = argtys if argtys is not None else self.argtys()
        rt = rt or (r.choice(self.atys) if r.random() < .25 else r.choice(FLTS) if r.random() < .25 else r.choice(self.tys + [BOOL]))
        nm = self.name("f")
        ps = [(self.name("p"), t) for t in args]
        self.env = [(p, t, True) for p, t in ps] + list(self.gvars)
        self.mult, self.cost, self.loop, self.ret = 1, 0, 0, None
        body = self.showargs(ps) if r.random() < .6 else []
        rec = None
        k = n or r.randint(2, 5)
        if r.random() < .3:
            rec = r.randint(1, 3)
            dn = self.name("p")
            self.mult = rec + 1
        body += self.some(k, d)
        if rec:
            # calls itself, arguments moved around, and uses everything afterwards
            byty = {}
            for p, t in ps:
                byty.setdefault(t.txt(), []).append(p)
            pm = {}
            for q in byty.values():
                z = q[:]
                r.shuffle(z)
                pm.update(zip(q, z))
            res = self.name("r")
            self.shared = True
            stop = if_(cmp_("<=", var(dn, I), ilit(0, I)), [ret(self.lit_simple(rt))])
            self.nocall += 1
            c = call(nm, [bin_("-", var(dn, I), ilit(1, I))] +
                     [var(pm[p], t) if r.random() < .8 else self.expr(t, 1) for p, t in ps], rt)
            self.nocall -= 1
            body += [stop, decl(res, c)] + self.sees(var(res, rt))
            self.env.append((res, rt, True))
            body += self.some(1, 1)
        if r.random() < .6 or not body:
            body += self.showargs(ps)
        self.ret = rt
        body.append(self.retstmt())
        self.ret = None
        cost = self.cost + 2 * len(ps) * self.mult + 1
        if rec:
            f = Fn(nm, [(dn, I)] + ps, rt, body)
            self.prog.fns.append(f)
            w = Fn(nm + "w", [(p + "w", t) for p, t in ps], rt,
                   [ret(call(nm, [ilit(rec, I)] + [var(p + "w", t) for p, t in ps], rt))])
            self.prog.fns.append(w)
            f = w
        else:
            f = Fn(nm, ps, rt, body)
            self.prog.fns.append(f)
        self.fns.append((f.name, args, rt, cost))
        self.env = []
        return f

    def calltest(self, fs, times=1):
        out = []
        for f in fs:
            for _ in range(times):
                pre = []
                args = [self.newvar(t, pre) if self.r.random() < .5 else self.lit(t, self.value(t), pre) for _, t in f.params]
                args = [a if a.t == t or a.t.kind != "int" else a for a, (_, t) in zip(args, f.params)]
                out += pre
                n = self.name("r")
                out.append(decl(n, call(f.name, args, f.ret)))
                out += self.show(var(n, f.ret))
        return out


I = INT["int"]


def anch(e):
    """does the expression fix the width of the float literals in it?"""
    j = e.j
    k = j["k"]
    if k == "lit":
        return False
    if k == "fneg":
        return anch(E("", 0, j["a"], None))
    if k == "fbin":
        return anch(E("", 0, j["a"], None)) or anch(E("", 0, j["b"], None))
    if k == "tern":
        return anch(E("", 0, j["a"], None)) or anch(E("", 0, j["b"], None))
    return True


def program(rng, ntests=6):
    g = LGen(rng, tys=rng.sample(INTNAMES, rng.choice((2, 3, 5))), feats=("loop", "tern", "lazy", "match", "postinc"))
    g.pflt = rng.choice((0, .15, .3, .5))
    g.setup()
    g.atys = [t for t in g.atys if g.size(t) <= 20] or g.atys[:1]
    for t in FLTS:
        g.eff(t)

    def one(k):
        g.fns = []
        fs = [g.function(n=g.r.randint(1, 4)) for _ in range(g.r.choice((2, 3, 4, 5)))]
        return g.calltest(fs[-3:])
    g.prog.owned(one, ntests)
    return g.prog


def check(c):
    c.build(libs=False)
    run_progs(c, [program(c.rng) for _ in range(c.n(24, 400))])


if __name__ == "__main__":
    vlib.main(check, "L09")
