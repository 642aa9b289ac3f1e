"""Integer arithmetic, comparison, conversion at every width."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from myrast import *
from myrrun import run_progs


class Gen:
    def __init__(self, r):
        self.r = r
        self.prog = Prog()
        self.nv = 0
        # places to keep operands: globals, struct fields, array elements, pointers
        self.st = struct("cell", [("f_" + n, INT[n]) for n in INTNAMES])
        self.prog.types.append(self.st)
        for n in INTNAMES:
            self.prog.globals.append(("g_" + n, ilit(self.value(n), INT[n]), False))
            self.prog.globals.append(("h_" + n, ilit(self.value(n), INT[n]), False))

    def value(self, n):
        w, s = INTS[n]
        r = self.r
        x = r.random()
        if x < .35:
            v = r.choice([0, 1, 2, 3, 7, 8, -1, -2, 127, 128, 255, 256, 32767, 32768, 65535, 65536])
        elif x < .6:
            v = r.choice([1 << (w - 1), (1 << (w - 1)) - 1, (1 << w) - 1, (1 << (w - 1)) + 1, (1 << (w // 2)), -(1 << (w // 2)),
                          0xff << (w - 8), 0x80, 0x8000, 0x80000000, 0x7fffffff, 0xffffffff])
        else:
            v = r.getrandbits(r.randint(1, w))
            if r.random() < .4:
                v = -v
        v = norm(v, n)
        if s and v == -(1 << (w - 1)):      # no literal for the most negative value: written through bnot
            v = v + 1 if r.random() < .5 else v
        return v

    def lit(self, n):
        w, s = INTS[n]
        v = self.value(n)
        if s and v == -(1 << (w - 1)):
            # -2^(w-1) as  ~max
            m = ilit((1 << (w - 1)) - 1, INT[n])
            return paren(bnot(m))
        return ilit(v, INT[n], style=self.r.choice((None, None, "x", "b", "o")) if v >= 0 else None)

    def leaf(self, n):
        if self.r.random() < .2:
            return self.lit(n)
        return self.r.choice(self.leaves[n])

    def expr(self, n, d):
        """an expression of type n whose type is fixed by a variable in it"""
        e = self.expr0(n, d)
        return self.r.choice(self.leaves[n]) if e.const else e

    def expr0(self, n, d):
        r = self.r
        w, s = INTS[n]
        if d <= 0:
            return self.leaf(n)
        x = r.random()
        if x < .12:
            m = r.choice(INTNAMES)
            return cast(self.expr(m, d - 1), INT[n])
        if x < .18:
            return neg(self.expr(n, d - 1))
        if x < .24:
            return bnot(self.expr(n, d - 1))
        if x < .3:
            return paren(tern(paren(self.cond(d - 1)), paren(self.expr(n, d - 1)), paren(self.expr0(n, d - 1))))
        if x < .36:
            return call("id_" + n, [self.expr(n, d - 1)], INT[n], eff=False)
        if x < .48:
            return self.idiom(n)
        op = r.choice(["+", "-", "*", "&", "|", "^", "+", "-", "*", "/", "%", "<<", ">>", "<<", ">>"])
        a = self.expr(n, d - 1)
        if op not in ("<<", ">>", "/", "%") and r.random() < .2:
            return bin_(op, self.lit(n), a)
        if op in "/%":
            if r.random() < .35:
                v = self.value(n)
                while v in (0, -1, 1):
                    v = self.value(n)
                b = ilit(v, INT[n]) if not (s and v == -(1 << (w - 1))) else ilit(3, INT[n])
            else:
                b = bin_("+", bin_("&", self.expr(n, d - 1), ilit(r.choice((1, 7, 63, 126)), INT[n])), ilit(1, INT[n]))
                b = paren(b)
        elif op in ("<<", ">>"):
            if r.random() < .5:
                b = ilit(r.choice([0, 1, w - 1, w // 2, r.randrange(w)]), INT[n])
            else:
                b = paren(bin_("&", self.expr(n, d - 1), ilit(w - 1, INT[n])))
        else:
            b = self.expr0(n, d - 1)
        return bin_(op, a, b)

    def idiom(self, n):
        """shapes a compiler likes to recognise: rotations, near rotations, masks, sums with itself"""
        r = self.r
        w, s = INTS[n]
        v = self.r.choice(self.leaves[n])
        v2 = v if r.random() < .8 else self.r.choice(self.leaves[n])
        k = r.randrange(1, w)
        k2 = w - k if r.random() < .7 else r.randrange(1, w)
        it = INT[n]
        x = r.random()
        if x < .45:
            return self.idiom2(n, v, v2, it)
        x = (x - .45) / .55
        if x < .5:
            a, b = paren(bin_("<<", v, ilit(k, it))), paren(bin_(">>", v2, ilit(k2, it)))
            if r.random() < .5:
                a, b = b, a
            return bin_(r.choice("||^+"), a, b)
        if x < .7:
            return bin_("&", paren(bin_(">>", v, ilit(k, it))), ilit(norm((1 << r.randrange(1, w - 1)) - 1, n), it))
        if x < .85:
            return bin_(r.choice("+-*^&|"), v, v)
        return bin_(r.choice("*/%"), v, ilit(norm(1 << r.randrange(0, w - 1), n), it))

    def idiom2(self, n, v, v2, it):
        """shapes a compiler may want to simplify: equal operands, constants on either side, inverse operations"""
        r = self.r
        w, s = INTS[n]
        x = r.random()
        c1, c2 = self.lit(n), self.lit(n)
        if x < .2:
            # divided by itself
            e = self.r.choice(self.leaves[n]) if r.random() < .7 else bin_(r.choice("+^"), v, v2)
            q = bin_(r.choice("/%"), paren(e), paren(e))
            return paren(tern(paren(cmp_("!=", paren(e), ilit(0, it))), paren(q), v))
        if x < .3:
            o = r.choice((neg, bnot))
            return o(paren(r.choice((neg, bnot, o))(v)))
        if x < .42:
            return bin_(r.choice("+-*&|^"), v, paren(r.choice((neg, bnot))(v2)))
        if x < .57:
            o1, o2 = r.choice("+-*&|^"), r.choice("+-*&|^")
            a = bin_(o1, v, c1) if r.random() < .6 else bin_(o1, c1, v)
            return bin_(o2, paren(a), c2) if r.random() < .6 else bin_(o2, c2, paren(a))
        if x < .7:
            ks = [ilit(r.choice([0, 1, w - 1, w // 2, r.randrange(w)]), it) for _ in range(2)]
            return bin_(r.choice(("<<", ">>")), paren(bin_(r.choice(("<<", ">>")), v, ks[0])), ks[1])
        if x < .8:
            k = ilit(r.choice([2, 3, 4, 7, 8, 10, 16, 100]), it)
            o1, o2 = r.choice(("*/", "/*", "*%", "/%", "%%", "//", "+%", "-/"))
            return bin_(o2, paren(bin_(o1, v, k)), k if r.random() < .7 else ilit(r.choice([2, 5, 16]), it))
        if x < .9:
            return bin_(r.choice(("<<", ">>")), c1, paren(bin_("&", v, ilit(w - 1, it))))
        b = paren(bin_("|", v, ilit(r.choice((1, 2, 5)), it)))
        return bin_("%" if r.random() < .5 else "/", c1, b) if not s else bin_(r.choice("+-"), paren(bin_("*", v, c1)), paren(bin_("*", v2, c2)))

    def pair(self, n, d):
        a, b = self.expr(n, d), self.expr0(n, d)
        return (a, b) if self.r.random() < .6 else (b, a)

    def cond(self, d):
        r = self.r
        n = r.choice(INTNAMES)
        w, s = INTS[n]
        rel = r.choice(["==", "!=", "<", "<=", ">", ">="])
        x = r.random()
        if x < .06:
            v = r.choice(self.leaves[n])
            c = cmp_(rel, v, v)
        elif x < .16:
            v = r.choice(self.leaves[n])
            k = ilit(r.choice([0, 1, (1 << (w - 1)) - 1, norm(-1, n), norm((1 << w) - 1, n)]), INT[n])
            if r.random() < .5:
                v = paren(bin_(r.choice("+-*&|^"), v, r.choice((self.lit(n), v))))
            c = cmp_(rel, v, k) if r.random() < .7 else cmp_(rel, k, v)
        else:
            c = cmp_(rel, *self.pair(n, d - 1))
        if d > 1 and r.random() < .25:
            c = r.choice((and_, or_))(c, self.cond(d - 1))
        if r.random() < .15:
            c = not_(paren(c))
        return c

    def test(self):
        r = self.r
        body = []
        self.leaves = {n: [var("g_" + n, INT[n]), var("h_" + n, INT[n])] for n in INTNAMES}
        cells = []
        body.append(decl("st", struct_lit(self.st, [(i, self.lit(n)) for i, n in enumerate(INTNAMES)])))
        for i, n in enumerate(INTNAMES):
            self.leaves[n].append(fld(var("st", self.st), i))
        use = r.sample(INTNAMES, 5)
        for k, n in enumerate(use):
            for j in range(r.choice((1, 2, 3))):
                v = "v%d_%d" % (k, j)
                body.append(decl(v, self.lit(n)))
                self.leaves[n].append(var(v, INT[n]))
                cells.append(var(v, INT[n]))
            if r.random() < .4:
                body.append(decl("a%d" % k, arr_lit(arr(INT[n], 3), [self.lit(n) for _ in range(3)])))
                for i in range(3):
                    self.leaves[n].append(idx(var("a%d" % k, arr(INT[n], 3)), ilit(i, INT["int"])))
                    cells.append(self.leaves[n][-1])
            if r.random() < .4:
                body.append(decl("p%d" % k, addr(var("v%d_0" % k, INT[n]))))
                self.leaves[n].append(deref(var("p%d" % k, ptr(INT[n]))))
        for i in range(r.randint(4, 8)):
            x = r.random()
            if x < .4:
                n = r.choice(INTNAMES)
                body.append(obs(self.expr(n, r.choice((1, 2, 3)))))
            elif x < .6:
                body.append(obs(self.cond(r.choice((1, 2, 3)))))
            elif x < .75:
                c = r.choice(cells)
                n = c.t.name
                w, s = INTS[n]
                op = r.choice(["+", "-", "*", "&", "|", "^", "/", "%", "<<", ">>"])
                if op in "/%":
                    e = ilit(r.choice((2, 3, 5, 7, 10, 100)), INT[n])
                elif op in ("<<", ">>"):
                    e = bin_("&", self.expr(n, 1), ilit(w - 1, INT[n])) if r.random() < .6 else ilit(r.randrange(w), INT[n])
                else:
                    e = self.expr(n, 2)
                body.append(opasn(c, op, e))
                body.append(obs(c))
            elif x < .85:
                c = r.choice(cells)
                body.append(inc(c, r.choice((1, -1))))
                body.append(obs(c))
            elif x < .93:
                c = r.choice(cells)
                body.append(asn(c, self.expr(c.t.name, 2)))
                body.append(obs(c))
            else:
                body.append(if_(self.cond(2), [obs(ilit(1, U64))], [obs(ilit(2, U64))]))
        return body


def gen(r, ntests):
    g = Gen(r)
    for n in INTNAMES:
        g.prog.fns.append(Fn("id_" + n, [("x", INT[n])], INT[n], [ret(var("x", INT[n]))]))
    for _ in range(ntests):
        g.prog.tests.append(g.test())
    return g.prog


def check(c):
    c.build(libs=False)
    progs = [gen(c.rng, 40) for _ in range(c.n(24, 240))]
    run_progs(c, progs)


if __name__ == "__main__":
    vlib.main(check, "L01")
