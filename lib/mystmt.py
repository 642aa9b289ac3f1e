"""Random function bodies: control flow, calls with visible effects, assignments
to every kind of target.  Everything terminates: loop counters are not assigned
in their bodies, functions call only functions made before them, and a cost
estimate bounds the work."""
from myrast import *
from myrgen import Gen

I64, I32 = INT["int64"], INT["int"]


def anchored(j):
    """does the expression itself fix the type of the literals in it?"""
    k = j["k"]
    if k == "lit":
        return isinstance(j["v"], bool)
    if k in ("neg", "bnot"):
        return anchored(j["a"])
    if k == "bin":
        return anchored(j["a"]) or (j["op"] not in ("<<", ">>") and anchored(j["b"]))
    if k == "tern":
        return anchored(j["a"]) or anchored(j["b"])
    return True


class SGen(Gen):
    FEAT = ("goto", "each", "match", "iter", "auto", "postinc", "chain", "loop", "tern", "lazy")

    def __init__(self, r, ntypes=3, effect_types=None, feats=None, tys=None):
        super().__init__(r, ntypes)
        self.feats = set(feats or self.FEAT)
        self.tys = [INT[n] for n in (tys or INTNAMES)]
        self.env = []           # [(name, T, assignable)]
        self.fns = []           # [(name, argument types, result type, cost)]
        self.mult = 1
        self.cost = 0
        self.loop = 0           # loops around the current point within the function
        self.ret = None
        self.seq = 0
        self.effs = {}
        self.gvars = []
        self.iters = []
        self.disp = []
        self.nocall = 0
        self.incd = set()

    # -------------------------------------------------------------- set-up
    def eff(self, t):
        """name of the function that reports a tag and returns its argument"""
        k = t.txt()
        if k not in self.effs:
            n = "e_" + (k if k.isalnum() else "x%d" % len(self.effs))
            self.effs[k] = n
            f = Fn(n, [("t", U64), ("v", t)], t, [obs(var("t", U64)), ret(var("v", t))])
            f.shared = True
            self.prog.fns.append(f)
        return self.effs[k]

    def tag(self):
        self.seq += 1
        return ilit(1000 + self.seq, U64)

    def iterable(self):
        """a struct that counts, and its implementation of iterable"""
        n = self.name("it")
        vt = self.r.choice(self.tys)
        t = struct(n, [("lo", INT["int"]), ("hi", INT["int"])])
        itp, vp = var("itp", ptr(t)), var("valp", ptr(vt))
        nx = Fn(n + "nx", [("itp", ptr(t)), ("valp", ptr(vt))], BOOL, [
            obs(self.tag()),
            if_(cmp_(">=", pfld(itp, 0), pfld(itp, 1)), [ret(blit(False))]),
            asn(deref(vp), cast(pfld(itp, 0), vt)),
            opasn(pfld(itp, 0), "+", ilit(1, INT["int"])),
            ret(blit(True))])
        fi = Fn(n + "fi", [("itp", ptr(t)), ("valp", ptr(vt))], VOID, [
            obs(self.tag()), obs(deref(vp)), obs(pfld(itp, 0))])
        self.prog.types.append(t)
        txt = "impl iterable %s -> %s =\n\t__iternext__ = %s\n\t__iterfin__ = %s\n;;\n" % (
            n, vt.txt(), "\n\t".join(nx.lit()), "\n\t".join(fi.lit()))
        self.prog.types.append(txt)
        self.prog.lams += [nx, fi]
        self.prog.impl("__iternext__", t, nx.name)
        self.prog.impl("__iterfin__", t, fi.name)
        self.iters.append((t, vt))

    def disposable(self):
        n = self.name("d")
        t = struct(n, [("a", self.r.choice(self.tys)), ("b", BOOL)])
        f = Fn(n + "dp", [("x", t)], VOID, [obs(self.tag()), obs(fld(var("x", t), 0))])
        self.prog.types.append(t)
        self.prog.types.append("impl disposable %s =\n\t__dispose__ = %s\n;;\n" % (n, "\n\t".join(f.lit())))
        self.prog.lams.append(f)
        self.prog.impl("__dispose__", t, f.name)
        self.disp.append(t)

    # --------------------------------------------------------- expressions
    def vars(self, t, assignable=False):
        return [var(n, u) for n, u, a in self.env if u == t and (a or not assignable) and n not in self.incd]

    def lvals(self, t, d=2):
        """assignable places of type t"""
        out = []

        def walk(e, d):
            if e.t == t:
                out.append(e)
            if d <= 0:
                return
            if e.t.kind == "struct":
                for i in range(len(e.t.fields)):
                    walk(fld(e, i), d - 1)
            elif e.t.kind == "tuple":
                for i in range(len(e.t.ts)):
                    walk(fld(e, i), d - 1)
            elif e.t.kind == "arr":
                walk(idx(e, ilit(self.r.randrange(e.t.n), U64)), d - 1)
            elif e.t.kind == "ptr" and e.t.t.kind != "ptr":
                walk(deref(e), d - 1)
        for n, u, a in self.env:
            if a and n not in self.incd:
                walk(var(n, u), d)
        return out

    def reads(self, t):
        out = self.vars(t)
        out += [e for e in self.lvals(t) if e.t == t]
        return out

    def callable(self, t):
        return [f for f in self.fns if f[2] == t and f[3] * self.mult <= 150]

    def expr(self, t, d=3):
        r = self.r
        x = r.random()
        if t.kind == "bool":
            return self.cond(d)
        if t.kind != "int":
            vs = self.reads(t)
            if vs and x < .6:
                return r.choice(vs)
            fs = self.callable(t)
            if fs and x < .8 and not self.nocall:
                return self.callf(r.choice(fs), d - 1)
            return self.lit_simple(t)
        vs = self.reads(t)
        if d <= 0 or x < .12:
            if vs and r.random() < .75:
                return r.choice(vs)
            return ilit(self.value(t), t)
        if x < .28 and not self.nocall:
            return call(self.eff(t), [self.tag(), self.expr(t, d - 1)], t)
        if x < .38 and not self.nocall:
            fs = self.callable(t)
            if fs:
                return self.callf(r.choice(fs), d - 1)
        if x < .48 and "tern" in self.feats:
            return paren(tern(self.cond(d - 1), self.expr(t, d - 1), self.expr(t, d - 1)))
        if x < .56:
            u = r.choice(self.tys)
            return cast(self.atom(u, d - 1), t)
        if x < .62:
            a = [var(n, u) for n, u, _ in self.env if u.kind == "arr" and u.t == t]
            if a:
                a = r.choice(a)
                return idx(a, self.index(a.t.n, d - 1))
        if x < .66:
            return neg(self.atom(t, d - 1)) if r.random() < .5 else bnot(self.atom(t, d - 1))
        op = r.choice(["+", "-", "*", "+", "-", "&", "|", "^", "/", "%", "<<", ">>"])
        a = self.expr(t, d - 1)
        if op in "/%":
            b = ilit(r.choice([1, 2, 3, 5, 7, 10, 16]), t) if r.random() < .5 else bin_("|", bin_("&", self.atom(t, d - 1), ilit(15, t)), ilit(1, t))
        elif op in ("<<", ">>"):
            b = ilit(r.randrange(INTS[t.name][0]), t)
        else:
            b = self.expr(t, d - 1)
        if not anchored(a.j) and (op in ("<<", ">>") or not anchored(b.j)):
            a = self.fix(a, t)
        return bin_(op, a, b)

    def atom(self, t, d):
        e = self.expr(t, d)
        return self.fix(e, t)

    def fix(self, e, t):
        if not anchored(e.j):
            vs = self.vars(t)
            if vs and self.r.random() < .5 or self.nocall:
                return self.r.choice(vs) if vs else cast(self.r.choice([var(n, u) for n, u, _ in self.env if u.kind == "int"] or [cast(ilit(1, t), t)]), t)
            return call(self.eff(t), [self.tag(), e], t)
        return e

    def lit_simple(self, t):
        pre = []
        v = self.value(t)
        e = self.lit(t, v, pre)
        if pre:
            raise ValueError("needs statements: %s" % t)
        return e

    def index(self, n, d):
        """an index below n, unsigned"""
        u = self.r.choice([INT[x] for x in ("uint64", "uint32", "uint16", "byte", "uint")])
        if self.r.random() < .4:
            return ilit(self.r.randrange(n), U64)
        return cast(bin_("%", self.atom(u, d), ilit(n, u)), U64)

    def callf(self, f, d):
        n, args, rt, cost = f
        self.cost += cost * self.mult
        return call(n, [self.expr(a, min(d, 2)) for a in args], rt)

    def cond(self, d=3):
        r = self.r
        x = r.random()
        if d <= 0 or x < .05:
            vs = self.reads(BOOL)
            return r.choice(vs) if vs and r.random() < .8 else blit(r.random() < .5)
        if x < .2 and not self.nocall:
            return call(self.eff(BOOL), [self.tag(), self.cond(d - 1)], BOOL)
        if x < .6 and "lazy" in self.feats:
            a, b = self.cond(d - 1), self.cond(d - 1)
            if x < .3:
                return not_(paren(a))
            return (and_ if r.random() < .5 else or_)(a if a.prec > 3 else paren(a), b if b.prec > 3 else paren(b))
        t = r.choice(self.tys)
        a, b = self.expr(t, d - 1), self.expr(t, d - 1)
        if not anchored(a.j) and not anchored(b.j):
            a = self.fix(a, t)
        return cmp_(r.choice(["==", "!=", "<", "<=", ">", ">="]), a, b)

    # ---------------------------------------------------------- statements
    def scope(self, f):
        """run f with the environment restored afterwards"""
        n = len(self.env)
        out = f()
        del self.env[n:]
        return out

    def noautos(self, f):
        """statements of the current block that may be skipped or repeated by a jump"""
        x, self.autook = self.autook, False
        o = self.scope(f)
        self.autook = x
        return o

    autook = True

    def some(self, n, d):
        out = []
        for _ in range(n):
            out += self.stmt(d)
        return out

    def body(self, d, n=None):
        x, self.autook = self.autook, True
        o = self.scope(lambda: self.some(n or self.r.choice((1, 1, 2, 2, 3)), d))
        self.autook = x
        return o

    def times(self, k, f):
        self.mult *= k
        self.loop += 1
        o = f()
        self.loop -= 1
        self.mult //= k
        return o

    def declare(self, t=None):
        r = self.r
        if t is None:
            x = r.random()
            if x < .6:
                t = r.choice(self.tys)
            elif x < .7:
                t = BOOL
            elif x < .8:
                t = arr(r.choice(self.tys), r.randint(1, 5))
            else:
                t = self.ty(2)
        n = self.name("v")
        e = self.expr(t)
        s = decl(n, e) if r.random() < .7 else decl2(n, e)
        if len(s.lines) == 2:
            s = S(s.lines, s.j)
        self.env.append((n, t, True))
        return [s]

    def stmt(self, d):
        r = self.r
        self.cost += self.mult
        self.incd = set()
        if self.cost > 250 or d <= 0:
            kinds = ["obs", "asn"]
        else:
            kinds = ["obs"] * 3 + ["decl"] * 3 + ["asn"] * 3 + ["opasn"] * 2 + ["if"] * 3 + ["inc", "call"]
            if self.mult <= 40 and "loop" in self.feats:
                kinds += ["for", "for", "while", "forever"]
                kinds += ["each"] * 2 if "each" in self.feats else []
                kinds += ["iter"] if self.iters and "iter" in self.feats else []
            if "match" in self.feats:
                kinds += ["match"] * 2
            if "goto" in self.feats:
                kinds += ["goto"]
            if self.disp and self.autook and "auto" in self.feats:
                kinds += ["auto"]
            if self.disp and "auto" in self.feats and self.mult <= 12:
                kinds += ["ladder"]
            if self.loop:
                kinds += ["exit"] * 2
            if self.ret:
                kinds += ["ret"]
            if "postinc" in self.feats:
                kinds += ["pinc"]
            if "chain" in self.feats:
                kinds += ["chain", "tasn"]
        k = r.choice(kinds)
        return getattr(self, "s_" + k)(d)

    def s_obs(self, d):
        t = self.r.choice(self.tys + [BOOL])
        return [obs(self.fix(self.expr(t), t))]

    def s_decl(self, d):
        return self.declare()

    def s_asn(self, d):
        t = self.r.choice(self.env)[1] if self.env and self.r.random() < .3 else self.r.choice(self.tys)
        lv = self.lvals(t)
        if not lv:
            return self.s_obs(d)
        l = self.r.choice(lv)
        if self.r.random() < .2:
            a = [var(n, u) for n, u, x in self.env if x and u.kind == "arr" and u.t == t]
            if a:
                a = self.r.choice(a)
                l = idx(a, self.index(a.t.n, 1))
                if l.call:
                    self.nocall += 1
        nc = l.call
        e = self.expr(t)
        if nc:
            self.nocall = 0
        return [asn(l, e)]

    def s_opasn(self, d):
        t = self.r.choice(self.tys)
        lv = self.lvals(t)
        if not lv:
            return self.s_obs(d)
        l = self.r.choice(lv)
        if self.r.random() < .3:
            a = [var(n, u) for n, u, x in self.env if x and u.kind == "arr" and u.t == t]
            if a:
                a = self.r.choice(a)
                l = idx(a, self.index(a.t.n, 1))
        op = self.r.choice(["+", "-", "*", "&", "|", "^", "/", "%", "<<", ">>"])
        if op in "/%":
            e = ilit(self.r.choice([1, 2, 3, 5, 7]), t)
        elif op in ("<<", ">>"):
            e = ilit(self.r.randrange(INTS[t.name][0]), t)
        else:
            self.nocall += 1 if l.call else 0
            e = self.expr(t, 2)
            self.nocall = 0
        return [opasn(l, op, e)]

    def s_inc(self, d):
        lv = self.lvals(self.r.choice(self.tys))
        return [inc(self.r.choice(lv), self.r.choice((1, -1)))] if lv else self.s_obs(d)

    def s_call(self, d):
        fs = [f for f in self.fns if f[3] * self.mult <= 150]
        return [expr(self.callf(self.r.choice(fs), 2))] if fs else self.s_obs(d)

    def s_pinc(self, d):
        """pre/post increments inside expressions; the variable is not read otherwise"""
        r = self.r
        t = r.choice(self.tys)
        lv = [v for v in self.vars(t, True)]
        if not lv:
            return self.s_obs(d)
        v = r.choice(lv)
        self.incd = {v.txt}
        p = (postinc if r.random() < .7 else preinc)(v, r.choice((1, -1)))
        x = r.random()
        if r.random() < .35 and "lazy" in self.feats:
            # in an operand that is evaluated only sometimes
            c = self.cond(1)
            y = r.random()
            if y < .3:
                q = [e for e in self.vars(t, True)]
                b = postinc(r.choice(q), r.choice((1, -1))) if q and r.random() < .5 else self.expr(t, 1)
                if r.random() < .5:
                    p, b = b, p
                e = tern(paren(c), p if p.prec > 1 else paren(p), b if b.prec > 1 else paren(b))
                return [obs(e if r.random() < .5 else bin_("+", paren(e), ilit(self.value(t), t))), obs(v)]
            k = paren(cmp_(r.choice(["<", ">", "==", "!="]), p, ilit(self.value(t), t)))
            c = (and_ if r.random() < .5 else or_)(paren(c), k)
            if y < .5:
                return [obs(paren(c)), obs(v)]
            if y < .7:
                c = (and_ if r.random() < .5 else or_)(paren(c), paren(self.cond(1)))
            return [if_(c, [obs(v)], [obs(v), obs(self.tag())])]
        if x < .3:
            return [obs(bin_(r.choice("+-^"), p, self.expr(t, 1)))]
        if x < .5:
            o = [e for e in self.lvals(t)]
            if o:
                return [asn(r.choice(o), p)]
        if x < .7:
            return [obs(call(self.eff(t), [self.tag(), p], t))]
        if x < .85:
            return [decl(self.name("v"), p)]
        return [if_(cmp_(r.choice(["<", ">", "=="]), p, ilit(self.value(t), t)), [obs(v)], [obs(v), obs(self.tag())])]

    def s_chain(self, d):
        t = self.r.choice(self.tys)
        lv = self.lvals(t)
        if len(lv) < 2:
            return self.s_obs(d)
        a, b = self.r.sample(lv, 2)
        return [asn(a, asnx(b, self.expr(t)))]

    def s_tasn(self, d):
        r = self.r
        t = r.choice(self.tys)
        lv = [v for v in self.vars(t, True)]
        if len(lv) < 2:
            return self.s_obs(d)
        ls = r.sample(lv, min(len(lv), r.choice((2, 2, 3))))
        if r.random() < .4:
            es = r.sample(ls, len(ls))      # exchange them
        else:
            es = [self.expr(l.t, 2) for l in ls]
        if r.random() < .2:
            ls.append(None)
            es.append(self.expr(r.choice(self.tys), 2))
        es = [self.fix(e, e.t) for e in es]
        return [tasn(ls, tup_lit(es))]

    def s_if(self, d):
        r = self.r
        elifs = [(self.cond(), self.body(d - 1)) for _ in range(r.choice((0, 0, 0, 1, 2)))]
        return [if_(self.cond(), self.body(d - 1), self.body(d - 1) if r.random() < .6 else None, elifs)]

    def loopvar(self):
        t = self.r.choice(self.tys)
        return self.name("i"), t

    def s_for(self, d):
        r = self.r
        k = r.randint(0, 4)
        n, t = self.loopvar()
        up = r.random() < .7
        lo = r.randint(0, 3)

        def f():
            self.env.append((n, t, False))
            i = var(n, t)
            b = self.times(max(k, 1), lambda: self.body(d - 1))
            step = inc(i, 1 if up else -1) if r.random() < .5 else opasn(i, "+" if up else "-", ilit(1, t))
            if up:
                return [for_(decl(n, ilit(lo, t)), cmp_(r.choice(["<", "!="]), i, ilit(lo + k, t)), step, b)]
            return [for_(decl(n, ilit(lo + k, t)), cmp_(r.choice([">", "!="]), i, ilit(lo, t)), step, b)]
        return self.scope(f)

    def s_while(self, d):
        r = self.r
        k = r.randint(0, 3)
        n, t = self.loopvar()
        i = var(n, t)
        out = [decl(n, ilit(k, t))]
        self.env.append((n, t, False))
        b = self.times(k + 1, lambda: self.body(d - 1))
        if r.random() < .3 and "postinc" in self.feats:
            # the decrement takes effect whether or not the loop goes on
            return out + [while_(cmp_("!=", postinc(i, -1), ilit(0, t)), b), obs(i)]
        c = cmp_("!=", i, ilit(0, t))
        if r.random() < .3:
            self.nocall = 1
            c = and_(c, paren(self.cond(2)))
            self.nocall = 0
        return out + [while_(c, [opasn(i, "-", ilit(1, t))] + b)]

    def s_forever(self, d):
        k = self.r.randint(1, 3)
        n, t = self.loopvar()
        i = var(n, t)
        self.env.append((n, t, False))
        b = self.times(k + 1, lambda: self.body(d - 1))
        stop = if_(cmp_("==", i, ilit(k, t)), [BRK])
        return [decl(n, ilit(0, t)), forever([stop, inc(i)] + b)]

    def s_each(self, d):
        r = self.r
        t = self.ty(1)
        k = r.randint(0, 4)
        pre = []
        a = self.newvar(arr(t, max(k, 1)), pre)
        seq = a if r.random() < .4 else slice_(a, ilit(0, U64), ilit(k, U64)) if r.random() < .7 else slice_(a, None, None)
        self.env.append((a.txt, a.t, False))
        binds = []
        p, _ = self.pat(t, 2, binds, wild=.6)

        def f():
            self.env.extend((n, bt, True) for n, bt in binds)
            return self.times(max(k, 1), lambda: self.body(d - 1))
        return pre + [each(p, seq, self.scope(f))]

    def s_iter(self, d):
        r = self.r
        t, vt = r.choice(self.iters)
        lo = r.randint(0, 3)
        k = r.randint(0, 3)
        binds = []
        p, _ = self.pat(vt, 1, binds, wild=.8)

        def f():
            self.env.extend((n, bt, True) for n, bt in binds)
            return self.times(max(k, 1), lambda: self.body(d - 1))
        pre = []
        e = self.newvar(t, pre, (lo, lo + k))
        return pre + [eachit(p, e, vt, self.scope(f))] + self.show(e)

    def s_match(self, d):
        r = self.r
        for _ in range(10):
            t = self.ty(2)
            if t.kind != "bool":
                break
        arms = self.arms(t, r.choice((1, 2, 3)), d=2)
        pre, e = [], None
        vs = self.reads(t)
        if vs and r.random() < .5:
            e = r.choice(vs)
        elif t.kind == "int":
            e = self.atom(t, 2)
        else:
            e = self.newvar(t, pre, r.choice(r.choice(arms)[2]))
        out = []
        for p, binds, _ in arms:
            def f():
                self.env.extend((n, bt, True) for n, bt in binds)
                return self.body(d - 1)
            out.append((p, self.scope(f)))
        return pre + [match(e, out)]

    def s_goto(self, d):
        r = self.r
        l = self.name("L")
        if r.random() < .6:
            # forward: skips some statements
            c = self.cond()
            jump = if_(c, self.noautos(lambda: self.some(1, d - 1)) + [goto(l)])
            mid = self.noautos(lambda: self.some(r.randint(1, 2), d - 1))
            return [jump] + mid + [label(l), obs(self.tag())]
        k = r.randint(1, 3)
        n, t = self.loopvar()
        i = var(n, t)
        self.env.append((n, t, False))
        loop = self.loop
        self.loop = 0           # a break here would be that of the loop around: allowed, but keep apart
        self.mult *= k + 1
        b = self.noautos(lambda: self.some(r.randint(1, 2), d - 1))
        self.mult //= k + 1
        self.loop = loop
        return [decl(n, ilit(0, t)), label(l)] + b + [inc(i), if_(cmp_("<", i, ilit(k, t)), [goto(l)])]

    def s_auto(self, d):
        t = self.r.choice(self.disp)
        n = self.name("au")
        f = t.fields[0][1]
        e = struct_lit(t, [(0, self.expr(f, 1)), (1, blit(True))])
        self.env.append((n, t, True))
        return [auto(n, e)]

    def s_ladder(self, d):
        """a loop that leaves its body at a different place each time round, with more to dispose of at each"""
        r = self.r
        n, t = self.loopvar()
        k = r.randint(3, 6)
        same = r.choice((None, None, BRK, CONT, "ret"))

        def rungs(i, left, deep):
            out = []
            for _ in range(left):
                x = r.random()
                if x < .5:
                    out += self.s_auto(1)
                c = cmp_("==", i, ilit(r.randrange(k), t)) if r.random() < .7 else self.cond(1)
                e = same or r.choice((BRK, CONT, CONT, "ret"))
                if e == "ret" and (not self.ret or (not same and r.random() < .5)):
                    e = CONT
                e = [obs(self.tag()), self.retstmt() if e == "ret" else e]
                y = r.random()
                if y < .5:
                    out.append(if_(c, e))
                elif y < .7:
                    out.append(if_(c, self.scope(lambda: self.s_auto(1)) + e, [obs(self.tag())]))
                elif deep:
                    out.append(if_(self.cond(1), self.scope(lambda: rungs(i, r.randint(1, 3), deep - 1))))
                else:
                    out += self.s_obs(1)
            return out

        def f():
            self.env.append((n, t, False))
            i = var(n, t)
            x, self.autook = self.autook, True
            b = self.times(k, lambda: self.scope(lambda: rungs(i, r.randint(2, 4), 2)))
            self.autook = x
            self.cost += 6 * self.mult * k
            return [for_(decl(n, ilit(0, t)), cmp_("<", i, ilit(k, t)), inc(i), b)]
        return self.scope(f)

    def s_exit(self, d):
        return [if_(self.cond(2), self.body(0, 1) + [self.r.choice((BRK, CONT))])]

    def s_ret(self, d):
        if self.r.random() < .75:
            return [if_(self.cond(2), self.body(0, 1) + [self.retstmt()])]
        return self.s_obs(d)

    def retstmt(self):
        if self.ret.kind == "void":
            return ret()
        return ret(self.expr(self.ret, 2))

    # ----------------------------------------------------------- functions
    def function(self, nargs=None, rt=None, n=None, d=3, argtys=None):
        r = self.r
        rt = rt or (r.choice(self.tys + [BOOL]) if r.random() < .7 else self.ty(2))
        args = argtys or [r.choice(self.tys + [BOOL]) if r.random() < .7 else self.ty(2)
                          for _ in range(r.randint(0, 4) if nargs is None else nargs)]
        nm = self.name("f")
        ps = [(self.name("p"), t) for t in args]
        self.env = [(p, t, True) for p, t in ps] + list(self.gvars)
        self.mult, self.cost, self.loop, self.ret = 1, 0, 0, rt
        body = self.some(n or r.randint(2, 6), d)
        body.append(self.retstmt())
        f = Fn(nm, ps, rt, body)
        self.prog.fns.append(f)
        self.fns.append((nm, args, rt, self.cost + 1))
        self.ret = None
        self.env = []
        return f

    def calltest(self, fs, times=2):
        """statements calling the functions and showing their results"""
        out = []
        for f in fs:
            for _ in range(times):
                pre = []
                args = [self.newvar(t, pre) for _, t in f.params]
                e = call(f.name, args, f.ret)
                out += pre
                if f.ret.kind in ("int", "bool"):
                    out.append(obs(e))
                elif f.ret.kind == "void":
                    out.append(expr(e))
                else:
                    n = self.name("r")
                    out.append(decl(n, e))
                    out += self.show(var(n, f.ret))
        return out
