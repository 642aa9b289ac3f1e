"""Random programs of closures, and of storage that several variables designate."""
from myrast import *
from mystmt import SGen


def plain(t):
    """holds no reference to storage of the function that made it"""
    k = t.kind
    if k in ("ptr", "slice", "fn"):
        return False
    if k == "struct":
        return all(plain(f) for _, f in t.fields)
    if k == "tuple":
        return all(plain(f) for f in t.ts)
    if k == "arr":
        return plain(t.t)
    if k == "union":
        return all(f is None or plain(f) for _, f in t.tags)
    return True


class CGen(SGen):
    def __init__(self, r, **kw):
        super().__init__(r, **kw)
        self.fcost = {}         # cost of calling the closure in a variable
        self.safe = set()       # function variables that may outlive their block
        self.gnames = set()
        self.hofs = []
        self.makers = []
        self.indup = 0

    def globals_(self):
        r = self.r
        for _ in range(r.randint(2, 4)):
            t = r.choice(self.tys) if r.random() < .6 else arr(r.choice(self.tys), r.randint(1, 4))
            n = self.name("g")
            pre = []
            self.prog.globals.append((n, self.lit(t, self.value(t), pre), False))
            assert not pre
            self.gvars.append((n, t, True))
            self.gnames.add(n)

    def sig(self):
        r = self.r
        args = [r.choice(self.tys + [BOOL]) if r.random() < .8 else self.ty(1) for _ in range(r.choice((0, 1, 1, 2, 3)))]
        rt = r.choice(self.tys + [BOOL]) if r.random() < .7 else VOID if r.random() < .3 else self.ty(2)
        return fn(args, rt)

    def lam(self, t, d, keep=None, n=None):
        """a function literal of type t that uses variables around it"""
        caps = [(m, u) for m, u, a in self.env if m not in self.gnames and (keep is None or keep(m, u))]
        old = (self.env, self.mult, self.cost, self.loop, self.ret, self.autook, self.incd, self.nocall)
        ps = [(self.name("p"), u) for u in t.args]
        self.env = [(m, u, u.kind not in ("ptr", "fn")) for m, u in caps] + [(p, u, True) for p, u in ps] + list(self.gvars)
        self.mult, self.cost, self.loop, self.ret, self.autook, self.nocall = 1, 0, 0, t.ret, True, 0
        body = self.some(n or self.r.choice((1, 2, 2, 3)), d)
        body.append(self.retstmt())
        cost = self.cost + 1
        self.env, self.mult, self.cost, self.loop, self.ret, self.autook, self.incd, self.nocall = old
        f = Fn(self.name("l"), ps, t.ret, body)
        self.prog.lams.append(f)
        return Lam.make(f, [m for m, _ in caps]), cost

    # A read of shared storage next to a call in the same expression is known
    # not to follow the order of evaluation (known-findings.txt, L05): every
    # statement either calls functions or reads shared storage.
    shared = True

    def visible(self, n, u):
        return self.shared or (n not in self.gnames and u.kind != "ptr")

    def vars(self, t, assignable=False):
        return [v for v in super().vars(t, assignable) if self.visible(v.txt, v.t)]

    def lvals(self, t, d=2):
        old = self.env
        self.env = [x for x in old if self.visible(x[0], x[1])]
        out = super().lvals(t, d) + [deref(var(n, u)) for n, u, a in self.env if u.kind == "ptr" and u.t == t and n not in self.incd]
        self.env = old
        return out

    def callable(self, t):
        return [] if self.shared else super().callable(t)

    def expr(self, t, d=3):
        old = self.env
        self.env = [x for x in old if self.visible(x[0], x[1])]
        e = super().expr(t, d)
        self.env = old
        return e

    def stmt(self, d):
        old = self.shared
        self.shared = self.r.random() < .6
        out = self.stmt2(d)
        self.shared = old
        return out

    # ------------------------------------------------------ extra statements
    def stmt2(self, d):
        r = self.r
        if d > 0 and self.cost < 250 and r.random() < .35:
            k = r.choice(["clos"] * 4 + ["ccall"] * 5 + ["hof"] * 2 + ["ptr"] * 2 + ["box", "dup", "make", "copy", "imm", "wide"])
            self.cost += self.mult
            self.incd = set()
            return getattr(self, "s_" + k)(d)
        return super().stmt(d)

    def s_clos(self, d):
        t = self.sig()
        n = self.name("c")
        e, c = self.lam(t, min(d - 1, 2))
        self.env.append((n, t, False))
        self.fcost[n] = c
        s = decl(n, e) if self.r.random() < .6 else decl2(n, e) if self.r.random() < .5 else decl(n, e, const=True)
        return [s]

    def fvars(self):
        return [(n, t) for n, t, _ in self.env if t.kind == "fn" and self.fcost.get(n, 1000) * self.mult <= 120]

    def use(self, n, e):
        """call e, closure of variable n, and report the result"""
        self.cost += self.fcost[n] * self.mult
        t = e.t
        x = callv(e, [self.expr(a, 1) for a in t.args])
        if t.ret.kind == "void":
            return [expr(x)]
        if t.ret.kind in ("int", "bool"):
            return [obs(x)]
        m = self.name("r")
        self.env.append((m, t.ret, True))
        return [decl(m, x)] + self.show(var(m, t.ret))

    def s_ccall(self, d):
        fs = self.fvars()
        if not fs:
            return self.s_clos(d)
        n, t = self.r.choice(fs)
        return [s for _ in range(self.r.choice((1, 1, 2))) for s in self.use(n, var(n, t))]

    def s_copy(self, d):
        fs = self.fvars()
        if not fs:
            return self.s_clos(d)
        n, t = self.r.choice(fs)
        m = self.name("c")
        self.env.append((m, t, False))
        self.fcost[m] = self.fcost[n]
        return [decl(m, var(n, t))] + self.use(m, var(m, t))

    def s_dup(self, d):
        fs = self.fvars()
        if not fs:
            return self.s_clos(d)
        n, t = self.r.choice(fs)
        m = self.name("c")
        e = E("fdup(%s)" % n, 11, {"k": "dup", "e": var(n, t).j}, t, True)
        self.env.append((m, t, False))
        self.fcost[m] = self.fcost[n]
        return [decl(m, e)] + self.use(m, var(m, t)) + self.use(n, var(n, t))

    def s_wide(self, d):
        """an environment of values of many sizes, copied to the heap"""
        r = self.r
        vs = []
        for _ in range(r.randint(3, 7)):
            u = r.choice([INT[x] for x in INTNAMES] + [BOOL, arr(INT[r.choice(INTNAMES)], r.randint(1, 3)), tup(INT[r.choice(INTNAMES)], BOOL)])
            vs.append((self.name("w"), u))
        out = [decl(n, self.lit_simple(u)) for n, u in vs]
        t = fn([], U64)
        use = list(vs)
        r.shuffle(use)
        body = []
        for n, u in use:
            body += self.show(var(n, u))
        body.append(ret(self.tag()))
        f = Fn(self.name("l"), [], U64, body)
        self.prog.lams.append(f)
        n, m = self.name("c"), self.name("c")
        out.append(decl(n, Lam.make(f, [x for x, _ in vs])))
        out.append(decl(m, E("fdup(%s)" % n, 11, {"k": "dup", "e": var(n, t).j}, t, True)))
        self.cost += 2 * self.mult
        out += [obs(callv(var(m, t), []))]
        if r.random() < .3:
            out += [obs(callv(var(n, t), []))]
        self.env.append((m, t, False))
        self.fcost[m] = 2
        return out

    def s_box(self, d):
        """closures inside a tuple or an array"""
        fs = self.fvars()
        if not fs:
            return self.s_clos(d)
        n, t = self.r.choice(fs)
        m = self.name("bx")
        if self.r.random() < .5:
            u = self.r.choice(self.tys)
            e = tup_lit([self.atom(u, 1), var(n, t)])
            return [decl(m, e)] + self.use(n, fld(var(m, e.t), 1))
        same = [k for k, v in fs if v == t]
        ms = [n] + [self.r.choice(same) for _ in range(self.r.randint(0, 2))]
        e = arr_lit(arr(t, len(ms)), [var(k, t) for k in ms])
        i = self.r.randrange(len(ms))
        return [decl(m, e)] + self.use(ms[i], idx(var(m, e.t), ilit(i, U64)))

    def s_imm(self, d):
        """a literal called on the spot"""
        t = self.sig()
        e, c = self.lam(t, min(d - 1, 1))
        n = self.name("c")
        self.fcost[n] = c
        return self.use(n, paren(e))

    def s_ptr(self, d):
        t = self.r.choice(self.tys)
        lv = [e for e in self.lvals(t) if e.j["k"] != "idx"]
        if not lv:
            return self.s_obs(d)
        n = self.name("q")
        e = addr(self.r.choice(lv))
        self.env.append((n, e.t, False))
        return [decl(n, e)]

    def lit_simple(self, t):
        if t.kind == "ptr":
            raise ValueError
        return super().lit_simple(t)

    # ------------------------------------------- functions around closures
    def hof(self):
        """a function that calls its argument a few times"""
        t = self.sig()
        n = self.name("h")
        ps = [(a, self.name("p")) for a in t.args]
        k = self.r.randint(1, 3)
        b = []
        for i in range(k):
            x = callv(var("f", t), [var(p, a) for a, p in ps])
            b.append(expr(x) if t.ret.kind == "void" else None)
            if t.ret.kind in ("int", "bool"):
                b[-1] = obs(x)
            elif t.ret.kind != "void":
                m = self.name("r")
                b[-1] = decl(m, x)
                b += self.show(var(m, t.ret))
        b.append(obs(self.tag()))
        b.append(ret())
        self.prog.fns.append(Fn(n, [("f", t)] + [(p, a) for a, p in ps], VOID, b))
        self.hofs.append((n, t, k))

    def s_hof(self, d):
        if not self.hofs:
            return self.s_clos(d)
        n, t, k = self.r.choice(self.hofs)
        same = [m for m, u in self.fvars() if u == t and self.fcost[m] * self.mult * k <= 150]
        if same and self.r.random() < .7:
            m = self.r.choice(same)
            e, c = var(m, t), self.fcost[m]
        else:
            e, c = self.lam(t, 1, n=1)
        if c * k * self.mult > 300:
            return self.s_obs(d)
        self.cost += c * k * self.mult
        return [expr(call(n, [e] + [self.expr(a, 1) for a in t.args], VOID))]

    def maker(self):
        """a function that returns a closure copied to the heap"""
        t = self.sig()
        n = self.name("mk")
        ps = [(self.name("p"), self.r.choice(self.tys) if self.r.random() < .7 else self.ty(2)) for _ in range(self.r.randint(1, 3))]
        self.env = [(p, u, True) for p, u in ps] + list(self.gvars)
        self.mult = 1
        self.cost = 0
        body = [s for _ in range(self.r.randint(0, 2)) for s in self.s_asn(0)]
        e, c = self.lam(t, 2, keep=lambda m, u: plain(u) or m in self.safe)
        body.append(decl("fnl", e))
        if self.r.random() < .5:
            self.fcost["fnl"] = c
            body += self.use("fnl", var("fnl", t))
        d = E("fdup(fnl)", 11, {"k": "dup", "e": var("fnl", t).j}, t, True)
        body.append(ret(d))
        self.env = []
        self.prog.fns.append(Fn(n, ps, t, body))
        self.makers.append((n, [u for _, u in ps], t, c, self.cost))

    def s_make(self, d):
        if not self.makers:
            return self.s_clos(d)
        n, args, t, c, k = self.r.choice(self.makers)
        if k * self.mult > 200:
            return self.s_obs(d)
        self.cost += k * self.mult
        m = self.name("c")
        e = call(n, [self.expr(a, 1) for a in args], t)
        self.env.append((m, t, False))
        self.fcost[m] = c
        self.safe.add(m)
        return [decl(m, e)] + self.use(m, var(m, t))
