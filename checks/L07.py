"""Bounds: out-of-range indexing and slicing ends the program, in-range does not."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from myrast import *
from myrgen import Gen
from myrrun import run_progs


class BGen(Gen):
    def setup(self):
        """functions that return their argument, so that an index is not a constant"""
        self.ids = {}
        for n in INTNAMES:
            self.prog.fns.append(Fn("id_" + n, [("v", INT[n])], INT[n], [ret(var("v", INT[n]))]))
        self.big = False
        self.elems = [INT[n] for n in self.r.sample(INTNAMES, 4)] + self.types

    def idxval(self, lo, hi):
        """(type name, value): lo <= value < hi, or sometimes not"""
        r = self.r
        y = r.choice(INTNAMES)
        if self.big and r.random() < .6:
            y = r.choice(["int8", "uint8", "byte", "int16"])
        w, s = INTS[y]
        top = (1 << (w - 1)) - 1 if s else (1 << w) - 1
        bad = r.random() < self.bad
        if not bad and hi > lo:
            v = r.choice([lo, hi - 1, r.randrange(lo, hi)])
            if v <= top:
                return y, v
            return "uint64", v
        c = [hi, hi + 1, lo - 1, -1, top, -top - 1, 2 * hi, 255, 256, 65536, 1 << 32, (1 << 32) + lo, (1 << 31) + lo,
             (1 << 63), (1 << 63) + lo, (1 << 64) - 1, (1 << 64) - hi, -hi, r.getrandbits(64), 1 << 16, (1 << 8) + lo]
        c = [v for v in c if (-top - 1 if s else 0) <= v <= top and not lo <= v < hi]
        if not c:
            return "uint64", hi
        self.done = True
        return y, r.choice(c)

    def ie(self, lo, hi, pre):
        y, v = self.idxval(lo, hi)
        e = self.ie2(y, v, pre)
        e.val = v
        return e

    def ie2(self, y, v, pre):
        t = INT[y]
        r = self.r
        x = r.random()
        if v == -(1 << (INTS[y][0] - 1)):       # has no literal
            n = self.name("i")
            pre.append(decl(n, ilit(v + 1, t)))
            pre.append(inc(var(n, t), -1))
            return var(n, t)
        if x < .2 and v < 1 << 31:
            return ilit(v, t) if y in ("uint64", "int", "int64") and v >= 0 else self.lv(v, t, pre)
        if x < .35:
            return call("id_" + y, [ilit(v, t)], t)
        if x < .5:
            # computed
            e = self.lv(norm(v - 3, y), t, pre) if norm(v - 3, y) != -(1 << (INTS[y][0] - 1)) else None
            return bin_("+", e, ilit(3, t)) if e else self.lv(v, t, pre)
        if x < .6 and v >= 0:
            z = r.choice([n for n in INTNAMES if INTS[n][0] >= INTS[y][0] and (INTS[n][0] > INTS[y][0] or INTS[n][1] == INTS[y][1])])
            return cast(self.lv(v, t, pre), INT[z])
        return self.lv(v, t, pre)

    def lv(self, v, t, pre):
        n = self.name("i")
        pre.append(decl(n, ilit(v, t)))
        return var(n, t)

    # ------------------------------------------------------------ sequences
    def seq(self, pre):
        """a sequence (array or slice lvalue) with its length"""
        r = self.r
        et = r.choice(self.elems)
        self.big = False
        if r.random() < .15:
            # lengths at which every value of a narrow index type is just in or just out of range
            self.big = True
            n = r.choice([126, 127, 128, 129, 254, 255, 256, 257])
            et = INT[r.choice(["uint8", "uint8", "uint16", "int64"])]
            v = self.name("v")
            pre.append(decl(v, arr_lit(arr(et, n), [ilit(r.randint(0, 100), et) for _ in range(n)])))
            a = var(v, arr(et, n))
            x = r.random()
            if x < .6:
                return a, n
            s = self.name("s")
            if x < .8:
                pre.append(decl(s, slice_(a, ilit(0, U64), None)))
                return var(s, sl(et)), n
            pre.append(decl(s, addr(a)))
            return paren(deref(var(s, ptr(arr(et, n))))), n
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 20])
        if n == 0:
            at = arr(et, 3)
            a = self.newvar(at, pre)
            s = self.name("s")
            k = r.randint(0, 3)
            pre.append(decl(s, slice_(a, ilit(k, U64), ilit(k, U64))))
            return var(s, sl(et)), 0
        at = arr(et, n)
        x = r.random()
        if x < .27:
            return self.newvar(at, pre), n
        if x < .35:
            # of a named type
            a = self.newvar(at, pre)
            s = self.name("s")
            if r.random() < .5:
                pre.append(decl(s, self.named(a), ty=False))
                return var(s, at), n
            pre.append(decl(s, self.named(slice_(a, ilit(0, U64), None)), ty=False))
            return var(s, sl(et)), n
        if x < .65:
            a = self.newvar(at, pre)
            lo = r.randint(0, n)
            hi = r.randint(lo, n)
            s = self.name("s")
            pre.append(decl(s, slice_(a, ilit(lo, U64), ilit(hi, U64) if r.random() < .8 or hi < n else None)))
            return var(s, sl(et)), hi - lo
        if x < .75:
            # inside a tuple
            t = tup(BOOL, at, et)
            return fld(self.newvar(t, pre), 1), n
        if x < .85:
            # through a pointer
            a = self.newvar(at, pre)
            p = self.name("p")
            pre.append(decl(p, addr(a)))
            return paren(deref(var(p, ptr(at)))), n
        # row of a matrix
        k = r.randint(1, 3)
        a = self.newvar(arr(at, k), pre)
        return idx(a, self.ie(0, k, pre)), n

    def named(self, e):
        """the same value in a type that has a name"""
        n = self.name("nt")
        self.prog.types.append("type %s = %s\n" % (n, e.t.txt()))
        return E("(%s : %s)" % (e.txt, n), 12, e.j, e.t)

    def ops(self):
        r = self.r
        pre = []
        out = []
        s, n = self.seq(pre)
        for _ in range(r.randint(1, 3)):
            if self.done:
                break
            x = r.random()
            et = s.t.t
            if x < .35:
                e = idx(s, self.ie(0, n, pre))
                out += pre
                pre = []
                if et.kind in ("int", "bool"):
                    out.append(obs(e))
                else:
                    v = self.name("v")
                    out.append(decl(v, e))
                    out += self.show(var(v, et))
            elif x < .6:
                e = idx(s, self.ie(0, n, pre))
                v = self.newvar(et, pre)
                out += pre
                pre = []
                out.append(asn(e, v))
                if self.big:
                    out += [obs(idx(s, ilit(i, U64))) for i in (0, n // 2, n - 1)] if not self.done else []
                else:
                    out += self.show(s) if not self.done else []
            elif (x < .7 or self.big) and et.kind == "int":
                e = idx(s, self.ie(0, n, pre))
                out += pre
                pre = []
                out.append(opasn(e, "+", ilit(1, et)))
            else:
                lo = self.ie(0, n + 1, pre) if r.random() < .7 else None
                a = lo.val if lo is not None and not self.done else 0
                hi = self.ie(a, n + 1, pre) if r.random() < .7 else None
                # both bounds have to have the same type in the tree
                if lo is not None and hi is not None and lo.t != hi.t:
                    lo = self.conv(lo)
                    hi = self.conv(hi)
                v = self.name("s")
                e = slice_(s, lo, hi)
                out += pre
                pre = []
                out.append(decl(v, e))
                if not self.done:
                    out += self.show(var(v, e.t))
                    if r.random() < .5:
                        s, n = var(v, e.t), None
                        break
        out += pre
        return out

    def conv(self, e):
        return e if e.t == INT["int64"] else cast(e, INT["int64"])

    def test(self, k):
        self.done = False
        self.big = False
        self.bad = self.r.choice((0, .1, .3, .6))
        out = []
        for _ in range(6):
            out += self.ops()
            if self.done:
                break
        if self.done:
            out.append(obs(ilit(77, U64)))
        return out


def check(c):
    c.build(libs=False)
    progs = []
    for _ in range(c.n(24, 300)):
        g = BGen(c.rng, ntypes=2)
        g.setup()
        g.prog.owned(g.test, 30)
        progs.append(g.prog)
    run_progs(c, progs)


if __name__ == "__main__":
    vlib.main(check, "L07")
