"""Aggregates are values."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from myrast import *
from myclos import CGen
from myrrun import run_progs

AGG = ("struct", "tuple", "arr", "union")


def overlap(a, b):
    """may be parts of one another, as far as the texts tell"""
    return "#" in a + b or a.startswith(b) or b.startswith(a)


class AGen(CGen):
    def setup(self):
        r = self.r
        # enumerations compare as integers
        n = r.randint(2, 5)
        self.enum = union("en", [("E%d" % k, None) for k in range(n)])
        self.prog.types.append(self.enum)
        self.types.append(self.enum)
        self.atys = list(self.types)
        for _ in range(3):
            self.atys.append(tup(*[self.ty(2) for _ in range(r.randint(2, 4))]))
        # sizes that are not multiples of a word
        for _ in range(2):
            self.atys.append(arr(INT[r.choice(["byte", "int8", "uint8", "uint16", "uint32"])], r.randint(1, 19)))
        for _ in range(2):
            self.atys.append(arr(r.choice(self.atys), r.randint(1, 3)))
        t = struct("od", [("f%d" % k, self.odd()) for k in range(r.randint(2, 5))])
        self.prog.types.append(t)
        self.atys.append(t)
        self.atys = [t for t in self.atys if self.size(t) <= 40]
        for t in r.sample(self.atys, min(2, len(self.atys))) + self.tys + [BOOL]:
            self.eff(t)
        for _ in range(r.randint(2, 3)):
            t = r.choice([u for u in self.atys if u.kind != "tuple"])
            n = self.name("g")
            self.prog.globals.append((n, self.glit(t), False))
            self.gvars.append((n, t, True))
            self.gnames.add(n)
        for _ in range(2):
            t = r.choice([u for u in self.atys if u.kind != "tuple"])
            n = self.name("k")
            self.prog.globals.append((n, self.glit(t), True))
            self.gvars.append((n, t, False))

    def glit(self, t):
        """initialiser of a global: parts may be left out, and come in any order"""
        r = self.r
        if t.kind == "struct" and r.random() < .7:
            ix = r.sample(range(len(t.fields)), r.randint(1, len(t.fields)))
            return struct_lit(t, [(i, self.glit(t.fields[i][1])) for i in ix])
        if t.kind == "struct":
            return struct_lit(t, [(i, self.glit(f)) for i, (_, f) in enumerate(t.fields)])
        if t.kind == "arr" and r.random() < .5:
            # the last one fixes the length
            ix = list(set([r.randrange(t.n) for _ in range(r.randint(0, t.n))] + [t.n - 1]))
            r.shuffle(ix)
            return arr_lit_ix(t, [(i, self.glit(t.t)) for i in ix])
        if t.kind == "arr":
            return arr_lit(t, [self.glit(t.t) for _ in range(t.n)])
        if t.kind == "tuple":
            e = tup_lit([self.glit(f) for f in t.ts])
            e.t = t
            return e
        if t.kind == "union":
            tag, f = r.choice(t.tags)
            return un_lit(t, tag, self.glit(f) if f else None)
        return self.lit(t, self.value(t), [])

    def odd(self):
        r = self.r
        x = r.random()
        if x < .4:
            return arr(INT[r.choice(["byte", "int8", "uint16"])], r.randint(1, 9))
        if x < .6:
            return r.choice(self.atys)
        return self.scalar()

    def size(self, t):
        k = t.kind
        if k in ("struct", "tuple"):
            return sum(self.size(f) for f in ([f for _, f in t.fields] if k == "struct" else t.ts))
        if k == "arr":
            return t.n * self.size(t.t)
        if k == "union":
            return 1 + max([self.size(f) for _, f in t.tags if f] or [0])
        return 1

    # --------------------------------------------------------- expressions
    def aggexpr(self, t, d):
        """an aggregate built from its parts"""
        r = self.r
        k = t.kind
        sub = lambda f: self.expr(f, d - 1)
        if k == "struct":
            ix = range(len(t.fields)) if r.random() < .7 else sorted(r.sample(range(len(t.fields)), r.randint(1, len(t.fields))))
            ix = list(ix)
            if r.random() < .3:
                r.shuffle(ix)
                self.nocall += 1
                e = struct_lit(t, [(i, sub(t.fields[i][1])) for i in ix])
                self.nocall -= 1
                return e
            return struct_lit(t, [(i, sub(t.fields[i][1])) for i in ix])
        if k == "tuple":
            e = tup_lit([sub(f) for f in t.ts])
            e.t = t
            return e
        if k == "arr":
            if r.random() < .25:
                ix = sorted(set([r.randrange(t.n) for _ in range(r.randint(0, t.n))] + [t.n - 1]))
                if r.random() < .4:
                    # in which order the elements are evaluated is not specified
                    r.shuffle(ix)
                    self.nocall += 1
                    e = arr_lit_ix(t, [(i, sub(t.t)) for i in ix])
                    self.nocall -= 1
                    return e
                return arr_lit_ix(t, [(i, sub(t.t)) for i in ix])
            return arr_lit(t, [sub(t.t) for _ in range(t.n)])
        tag, f = r.choice(t.tags)
        return un_lit(t, tag, sub(f) if f else None)

    def expr(self, t, d=3):
        if t.kind not in AGG:
            return super().expr(t, d)
        r = self.r
        x = r.random()
        old = self.env
        self.env = [v for v in old if self.visible(v[0], v[1])]
        try:
            vs = self.reads(t)
            if vs and (x < .35 or d <= 0):
                return r.choice(vs)
            if x < .5 and not self.nocall:
                fs = self.callable(t)
                if fs:
                    return self.callf(r.choice(fs), d - 1)
            if x < .55 and t.txt() in self.effs and not self.nocall:
                return call(self.eff(t), [self.tag(), self.expr(t, d - 1)], t)
            if x < .6 and d > 0:
                # both sides have to be of the declared type by themselves
                if len(vs) > 1:
                    return paren(tern(self.cond(1), r.choice(vs), r.choice(vs)))
            if d <= 0 or x < .65 and self.size(t) < 12:
                return self.lit_simple(t)
            return self.aggexpr(t, min(d, 2))
        finally:
            self.env = old

    # ---------------------------------------------------------- statements
    def stmt2(self, d):
        r = self.r
        if self.cost < 250 and r.random() < .6:
            k = r.choice(["aasn"] * 4 + ["adecl"] * 3 + ["own"] * 4 + ["aptr"] * 2 + ["part"] * 3 + ["mutmatch"] * 2 +
                         ["enum", "each2", "swap", "sees", "fields", "perm", "perm"])
            self.cost += self.mult
            self.incd = set()
            return getattr(self, "s_" + k)(max(d, 1))
        return super(CGen, self).stmt(d)

    def pick(self):
        """the type of a variable around, most of the time"""
        ts = [u for n, u, a in self.env if u.kind in AGG and self.visible(n, u)]
        return self.r.choice(ts) if ts and self.r.random() < .75 else self.r.choice(self.atys)

    def sees(self, e):
        """report some of e"""
        self.cost += min(self.size(e.t), 8)
        if self.size(e.t) <= 8:
            return self.show(e)
        # a few of the parts
        r = self.r
        k = e.t.kind
        if k == "union":
            return self.show(e)
        if k == "arr":
            ps = [idx(e, ilit(i, INT["int"])) for i in {0, e.t.n - 1, r.randrange(e.t.n)}]
        else:
            n = len(e.t.fields if k == "struct" else e.t.ts)
            ps = [fld(e, i) for i in {0, n - 1, r.randrange(n)}]
        return [s for p in ps for s in self.sees(p)]

    def s_sees(self, d):
        t = self.pick()
        vs = self.reads(t)
        return self.sees(self.r.choice(vs)) if vs else self.s_adecl(d)

    def s_adecl(self, d):
        t = self.pick()
        n = self.name("a")
        e = self.expr(t)
        self.env.append((n, t, True))
        return [decl(n, e)]

    def s_aasn(self, d):
        t = self.pick()
        lv = self.lvals(t)
        if not lv:
            return self.s_adecl(d)
        l = self.r.choice(lv)
        return [asn(l, self.expr(t))] + (self.sees(l) if self.r.random() < .4 else [])

    def s_own(self, d):
        """an aggregate assigned an aggregate built from its own parts"""
        r = self.r
        t = self.pick()
        lv = [e for e in self.lvals(t)]
        if not lv:
            return self.s_adecl(d)
        l = r.choice(lv)

        def part(f):
            c = []

            def walk(e, k):
                if e.t == f:
                    c.append(e)
                if k <= 0:
                    return
                if e.t.kind in ("struct", "tuple"):
                    for i in range(len(e.t.fields if e.t.kind == "struct" else e.t.ts)):
                        walk(fld(e, i), k - 1)
                elif e.t.kind == "arr":
                    for i in range(min(e.t.n, 4)):
                        walk(idx(e, ilit(i, U64)), k - 1)
            walk(l, 2)
            if c and r.random() < .85:
                return r.choice(c)
            return self.expr(f, 1)
        if t.kind == "arr":
            e = arr_lit(t, [part(t.t) for _ in range(t.n)])
        elif t.kind == "struct":
            ix = list(range(len(t.fields)))
            if r.random() < .3:
                ix = r.sample(ix, r.randint(1, len(ix)))
            e = struct_lit(t, [(i, part(t.fields[i][1])) for i in ix])
        elif t.kind == "tuple":
            e = tup_lit([part(f) for f in t.ts])
            e.t = t
        else:
            return self.s_aasn(d)
        return [asn(l, e)] + self.sees(l)

    def s_swap(self, d):
        r = self.r
        t = self.pick()
        lv = [e for e in self.lvals(t)]
        if len(lv) < 2:
            return self.s_adecl(d)
        a, b = r.sample(lv, 2)
        n = self.name("t")
        return [decl(n, a), asn(a, b), asn(b, var(n, t))] + self.sees(a) + self.sees(b)

    def s_perm(self, d):
        """several places at once, from values that may come from them"""
        r = self.r
        ls = []
        for _ in range(r.choice((2, 2, 3, 4))):
            t = self.pick() if r.random() < .7 or not ls else r.choice(ls).t
            lv = [e for e in self.lvals(t) if not any(overlap(e.txt, l.txt) for l in ls)]
            if lv:
                ls.append(r.choice(lv))
        if len(ls) < 2:
            return self.s_adecl(d)
        es = []
        for l in ls:
            c = [e for e in ls if e.t == l.t and e is not l]
            x = r.random()
            es.append(r.choice(c) if c and x < .7 else l if x < .75 else self.expr(l.t, 1))
        tl = list(ls)
        if r.random() < .15:
            tl.append(None)
            es.append(r.choice(ls))
        return [tasn(tl, tup_lit(es))] + [s for l in ls for s in self.sees(l)]

    def s_aptr(self, d):
        t = self.pick() if self.r.random() < .7 else self.r.choice(self.tys)
        lv = [e for e in self.lvals(t, 3)]
        if not lv:
            return self.s_adecl(d)
        n = self.name("q")
        e = addr(self.r.choice(lv))
        self.env.append((n, e.t, False))
        return [decl(n, e)]

    def s_part(self, d):
        """change one part; the copies made before stay as they are"""
        r = self.r
        t = self.pick()
        vs = self.reads(t)
        if not vs:
            return self.s_adecl(d)
        v = r.choice(vs)
        n = self.name("cp")
        out = [decl(n, v)]
        c = var(n, t)
        which = c if r.random() < .5 or v not in self.lvals(t) else v

        def parts(e, k):
            o = [e]
            if k > 0 and e.t.kind in ("struct", "tuple"):
                for i in range(len(e.t.fields if e.t.kind == "struct" else e.t.ts)):
                    o += parts(fld(e, i), k - 1)
            elif k > 0 and e.t.kind == "arr":
                o += parts(idx(e, ilit(r.randrange(e.t.n), U64)), k - 1)
            return o
        if which is v and not any(v.txt == l.txt for l in self.lvals(t)):
            which = c
        p = r.choice(parts(which, 3))
        out.append(asn(p, self.expr(p.t, 1)))
        self.env.append((n, t, True))
        return out + self.sees(c) + self.sees(v)

    def s_fields(self, d):
        """fields of a value nobody stored"""
        r = self.r
        t = r.choice([u for u in self.atys if u.kind in ("struct", "tuple")] or self.atys)
        fs = self.callable(t)
        if t.kind not in ("struct", "tuple") or not fs:
            return self.s_part(d)
        e = self.callf(r.choice(fs), 1)
        f = fld(e, r.randrange(len(t.fields if t.kind == "struct" else t.ts)))
        n = self.name("a")
        self.env.append((n, f.t, True))
        return [decl(n, f)] + self.sees(var(n, f.t))

    def s_mutmatch(self, d):
        """what a pattern binds is a copy"""
        r = self.r
        t = r.choice([u for u in self.atys if u.kind in ("union", "struct", "tuple")])
        vs = [v for v in self.lvals(t)]
        if not vs:
            return self.s_adecl(d)
        v = r.choice(vs)
        arms = self.arms(t, 2, d=2)
        out = []
        for p, binds, _ in arms:
            b = []
            if r.random() < .7:
                b.append(asn(v, self.lit_simple(t)))
            for n, u in binds:
                b += self.sees(var(n, u))
                if r.random() < .5:
                    x = self.expr(u, 1)
                    b.append(asn(var(n, u), x))
                    b += self.sees(var(n, u))
            b += self.sees(v)
            out.append((p, b))
        return [match(v, out)]

    def s_enum(self, d):
        vs = self.reads(self.enum)
        if len(vs) < 2:
            n = self.name("a")
            e = self.expr(self.enum, 1)
            self.env.append((n, self.enum, True))
            return [decl(n, e)]
        a, b = self.r.sample(vs, 2) if self.r.random() < .6 else (self.r.choice(vs), self.lit_simple(self.enum))
        return [obs(cmp_(self.r.choice(["==", "!="]), a, b))]

    def s_each2(self, d):
        """the loop variable is a copy of the element"""
        r = self.r
        ts = [u for u in self.atys if u.kind == "arr"]
        vs = [v for t in ts for v in self.reads(t)]
        if not vs or self.mult > 10:
            return self.s_adecl(d)
        v = r.choice(vs)
        binds = []
        p, _ = self.pat(v.t.t, 1, binds, wild=.7)
        b = [obs(self.tag())]
        for n, u in binds:
            b += self.sees(var(n, u))
            b.append(asn(var(n, u), self.lit_simple(u)))
        return [each(p, v, b)] + self.sees(v)


def program(rng, ntests=6):
    g = AGen(rng, tys=rng.sample(INTNAMES, rng.choice((2, 3, 4))), feats=("loop", "tern", "lazy", "match", "postinc"))
    g.setup()

    def one(k):
        g.fns = []
        fs = []
        for _ in range(g.r.choice((2, 3, 4))):
            r = g.r
            a = [r.choice(g.atys) if r.random() < .7 else r.choice(g.tys) for _ in range(r.randint(0, 4))]
            fs.append(g.function(n=r.randint(4, 9), d=2, argtys=a, rt=r.choice(g.atys) if r.random() < .75 else None))
        return g.calltest(fs)
    g.prog.owned(one, ntests)
    return g.prog


def check(c):
    c.build(libs=False)
    run_progs(c, [program(c.rng) for _ in range(c.n(24, 400))])


if __name__ == "__main__":
    vlib.main(check, "L08")
