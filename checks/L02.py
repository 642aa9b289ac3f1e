"""Constant expressions: what the compiler computes against the semantics."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from myrast import *
from myrrun import run_progs

SUFF = ["int16", "uint16", "int32", "uint32", "int64", "uint64", "uint8"]


class Gen:
    def __init__(self, r):
        self.r = r
        self.prog = Prog()
        self.consts = {n: [] for n in INTNAMES}
        self.vars = {n: [] for n in INTNAMES}
        p = self.prog
        p.fns += [Fn("id_" + n, [("x", INT[n])], INT[n], [ret(var("x", INT[n]))]) for n in INTNAMES]
        p.fns += [Fn("ef_" + n, [("x", INT[n])], INT[n], [obs(ilit(77, U64)), ret(var("x", INT[n]))]) for n in INTNAMES]
        self.st = struct("cs", [("a", INT["int8"]), ("b", INT["uint32"]), ("c", INT["int64"])])
        p.types.append(self.st)
        for k in range(14):
            n = r.choice(INTNAMES)
            e = self.cexpr(n, r.choice((0, 1, 2, 3)), True)
            nm = "K%d" % k
            p.globals.append((nm, e, True))
            self.consts[n].append(var(nm, INT[n]))
            self.consts[n][-1].const = True
        for k in range(10):
            n = r.choice(INTNAMES)
            p.globals.append(("G%d" % k, self.cexpr(n, r.choice((1, 2, 3)), True), False))
            self.vars[n].append(var("G%d" % k, INT[n]))
        g = struct_lit(self.st, [(0, self.cexpr("int8", 2, True)), (1, self.cexpr("uint32", 2, True)), (2, self.cexpr("int64", 2, True))])
        p.globals.append(("GS", g, False))
        at = arr(INT["int16"], 3)
        p.globals.append(("GA", arr_lit(at, [self.cexpr("int16", 2, True) for _ in range(3)]), False))
        self.at = at
        self.leaves = []
        self.nt = 0
        for k in range(5):
            t = self.aggty(3)
            p.globals.append(("GZ%d" % k, self.agg(t), False))
            self.flat(var("GZ%d" % k, t))

    def aggty(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or d < 3 and x < .3:
            return INT[r.choice(INTNAMES)]
        if x < .6:
            return arr(self.aggty(d - 1), r.randint(1, 5))
        if x < .72:
            return sl(INT[r.choice(INTNAMES)])
        self.nt += 1
        t = struct("gz%d" % self.nt, [("f%d" % i, self.aggty(d - 1)) for i in range(r.randint(1, 4))])
        self.prog.types.append(t)
        return t

    def agg(self, t):
        """a constant initialiser: elements may be out of order or missing"""
        r = self.r
        if t.kind == "int":
            return self.cexpr(t.name, r.choice((0, 0, 1)), True)
        if t.kind == "slice":
            n = r.randint(1, 5)
            e = arr_lit(arr(t.t, n), [self.agg(t.t) for _ in range(n)])
            lo, hi = sorted((r.randint(0, n), r.randint(0, n)))
            k = lambda v: None if r.random() < .25 else ilit(v, INT["int"])
            lo = k(lo)
            return slice_(e, lo, k(hi))
        if t.kind == "struct":
            n = len(t.fields)
            ix = r.sample(range(n), n if r.random() < .5 else r.randint(1, n))
            return struct_lit(t, [(i, self.agg(t.fields[i][1])) for i in ix])
        if r.random() < .5:
            return arr_lit(t, [self.agg(t.t) for _ in range(t.n)])
        # the last element gives the length
        ix = r.sample(range(t.n - 1), r.randint(0, t.n - 1)) + [t.n - 1]
        r.shuffle(ix)
        return arr_lit_ix(t, [(i, self.agg(t.t)) for i in ix])

    def flat(self, e):
        t = e.t
        if t.kind == "struct":
            for i in range(len(t.fields)):
                self.flat(fld(e, i))
        elif t.kind == "arr":
            for i in range(t.n):
                self.flat(idx(e, ilit(i, INT["int"])))
        else:
            self.leaves.append(e)

    def value(self, n):
        w, s = INTS[n]
        r = self.r
        x = r.random()
        if x < .5:
            v = r.choice([0, 1, 1, 2, 3, 7, 8, 10, -1, -2, 100, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536])
        elif x < .75:
            v = r.choice([1 << (w - 1), (1 << (w - 1)) - 1, (1 << w) - 1, (1 << (w // 2)), 0xff << (w - 8), 0x7fffffff, 0xffffffff])
        else:
            v = r.getrandbits(r.randint(1, w))
        v = norm(v, n)
        if s and v == -(1 << (w - 1)):
            v += 1
        return v

    def clit(self, n, suffix=False):
        v = self.value(n)
        return ilit(v, INT[n], style=self.r.choice((None, None, "x", "o")) if v >= 0 and not suffix else None, suffix=suffix)

    def cleaf(self, n, typed=False, glob=False):
        """a constant leaf; typed: its type does not depend on the context"""
        r = self.r
        if self.consts[n] and r.random() < .5 or typed and not (n in SUFF or n == "int"):
            if self.consts[n]:
                return r.choice(self.consts[n])
        if typed and n not in SUFF and n != "int":
            return None
        return self.clit(n, suffix=typed and n != "int")

    def cexpr(self, n, d, glob=False, typed=False, size=False):
        """constant expression of type n; in a global initialiser only what is accepted there"""
        r = self.r
        w, s = INTS[n]
        if d <= 0:
            l = self.cleaf(n, typed, glob)
            if size and typed and l is not None and l.j["k"] == "lit" and n != "int":
                l = None
            return l if l is not None else self.clit(n)
        x = r.random()
        if x < .15:
            m = r.choice((SUFF + ["int"] if not size else []) + [q for q in INTNAMES if self.consts[q]] or SUFF)
            # inside a cast the type has to be fixed by the expression itself
            l = self.cleaf(m, True) if not size else r.choice(self.consts[m]) if self.consts[m] else None
            if l is not None:
                a = l
                for _ in range(r.randint(0, 1)):
                    a = paren(bin_(r.choice("+-*&|^"), a, self.cexpr(m, 0 if size else d - 2, glob, size=size)))
                if a is l and l.j["k"] == "lit":
                    # a bare literal takes the type it is cast to
                    a = paren(bin_("+", l, ilit(r.choice((0, 1, 3)), INT[m])))
                return cast(a, INT[n])
        if x < .22 and not size:
            return neg(paren(self.cexpr(n, d - 1, glob, typed, size)))
        if not glob and x < .28:
            return bnot(self.cexpr(n, d - 1, glob, typed, size))
        op = r.choice(["+", "-", "*", "&", "|", "^", "/", "%", "<<", ">>"])
        a = self.cexpr(n, d - 1, glob, typed, size)
        if op in "/%":
            v = self.value(n)
            while v in (0, -1):
                v = self.value(n)
            b = ilit(v, INT[n])
        elif op in ("<<", ">>"):
            b = ilit(r.randrange(w), INT[n])
        else:
            b = self.cexpr(n, 0 if size else d - 1, glob, size=size)
        return bin_(op, a, b)

    def mixed(self, n, d):
        """variables, calls with effects and neutral or absorbing constants"""
        r = self.r
        w, s = INTS[n]
        x = r.random()
        if d <= 0 or x < .15:
            y = r.random()
            if y < .4 or not self.vars[n]:
                return call("ef_" + n, [self.cexpr(n, 1)], INT[n])
            return r.choice(self.vars[n])
        if x < .75:
            e = self.mixed(n, d - 1)
            op = r.choice(["+0", "0+", "-0", "*1", "1*", "*0", "0*", "/1", "%1", "<<0", ">>0", "|0", "&0", "^0", "0&"])
            k = lambda v: ilit(v, INT[n])
            t = {"+0": lambda: bin_("+", e, k(0)), "0+": lambda: bin_("+", k(0), e), "-0": lambda: bin_("-", e, k(0)),
                 "*1": lambda: bin_("*", e, k(1)), "1*": lambda: bin_("*", k(1), e), "*0": lambda: bin_("*", e, k(0)),
                 "0*": lambda: bin_("*", k(0), e), "/1": lambda: bin_("/", e, k(1)), "%1": lambda: bin_("%", e, k(1)),
                 "<<0": lambda: bin_("<<", e, k(0)), ">>0": lambda: bin_(">>", e, k(0)), "|0": lambda: bin_("|", e, k(0)),
                 "&0": lambda: bin_("&", e, k(0)), "^0": lambda: bin_("^", e, k(0)), "0&": lambda: bin_("&", k(0), e)}
            return t[op]()
        op = r.choice("+-*&|^")
        a, b = self.mixed(n, d - 1), self.cexpr(n, d - 1)
        return bin_(op, a, b) if r.random() < .5 else bin_(op, b, a)

    def ccond(self, d):
        r = self.r
        n = r.choice(INTNAMES)
        a = self.cexpr(n, r.choice((0, 1, 2)), typed=True)
        b = self.cexpr(n, r.choice((0, 1, 2)))
        if not typed(a):
            a = r.choice(self.vars[n]) if self.vars[n] else call("id_" + n, [a], INT[n])
        c = cmp_(r.choice(["==", "!=", "<", "<=", ">", ">="]), a, b)
        if r.random() < .15:
            c = blit(r.random() < .5)
        if d > 0 and r.random() < .4:
            c = r.choice((and_, or_))(c, self.ccond(d - 1))
        if r.random() < .2:
            c = not_(paren(c))
        return c

    def test(self, i):
        r = self.r
        body = []
        nv = 0
        for _ in range(r.randint(5, 9)):
            nv += 1
            n = r.choice(INTNAMES)
            x = r.random()
            if x < .25:
                body.append(decl("v%d" % nv, self.cexpr(n, r.choice((1, 2, 3)))))
                body.append(obs(var("v%d" % nv, INT[n])))
            elif x < .35:
                body.append(obs(call("id_" + n, [self.cexpr(n, r.choice((1, 2, 3)))], INT[n])))
            elif x < .5:
                body.append(obs(call("id_" + n, [self.mixed(n, r.choice((1, 2, 3)))], INT[n])))
            elif x < .62:
                c = self.ccond(1)
                y = r.random()
                if y < .5:
                    body.append(if_(c, [obs(ilit(1, U64))], [obs(ilit(2, U64))], elifs=[(self.ccond(1), [obs(ilit(3, U64))])] if r.random() < .4 else ()))
                elif y < .75:
                    body.append(while_(c, [obs(ilit(4, U64)), BRK]))
                else:
                    body.append(obs(tern(paren(c), ilit(5, U64), ilit(6, U64))))
            elif x < .74:
                # array length
                m = r.choice(["int", "uint64", "int64", "byte", "uint16"])
                m = r.choice([q for q in INTNAMES if self.consts[q]] or ["int"])
                e = self.cexpr(m, r.choice((1, 2)), True, typed=True, size=True)
                if not typed(e) or (m != 'int' and '"k": "var"' not in str(e.j).replace("'", '"')):
                    continue
                if INTS[m][0] == 8 and INTS[m][1]:
                    e2 = bin_("+", paren(bin_("&", e, ilit(63, INT[m]))), ilit(1, INT[m]))
                else:
                    e2 = bin_("+", paren(bin_("&", e, ilit(r.choice((31, 63, 100)), INT[m]))), ilit(r.choice((0, 1, 5)), INT[m]))
                body.append(S(["var v%d : byte[%s]" % (nv, e2.txt)], {"k": "block", "b": []}))
                body.append(S(["obs(v%d.len)" % nv], {"k": "obs", "e": cast(e2, U64).j}))
                self.used_arr = True
            elif x < .88:
                # constants in patterns
                ks = [k for k in self.prog.globals if k[2]]
                nm, e, _ = r.choice(ks)
                n = e.t.name
                arms = [var(a, b.t) for a, b, _ in ks if b.t.name == n]
                r.shuffle(arms)
                lits = [self.clit(n) for _ in range(2)]
                v = r.choice(arms + lits)
                alts = []
                seen = set()
                for a in arms + lits:
                    if a.txt not in seen:
                        seen.add(a.txt)
                        alts.append(a)
                body.append(decl("v%d" % nv, v if r.random() < .7 else self.cexpr(n, 2)))
                vv = var("v%d" % nv, INT[n])
                # arms must not repeat a value: each constant gets a match of its own
                for k, a in enumerate(alts[:4]):
                    body.append(S(["match v%d" % nv, "| %s:\tobs(%d)" % (a.txt, k + 1), "| _:\tobs(%d)" % (k + 20), ";;"],
                                  if_(cmp_("==", vv, a), [obs(ilit(k + 1, U64))], [obs(ilit(k + 20, U64))]).j))
            else:
                y = r.random()
                if y < .4:
                    j = r.randrange(3)
                    body.append(obs(fld(var("GS", self.st), j)))
                elif y < .7:
                    body.append(obs(idx(var("GA", self.at), ilit(r.randrange(3), INT["int"]))))
                elif y < .9 and self.leaves:
                    for _ in range(4):
                        e = r.choice(self.leaves)
                        if e.t.kind == "slice":
                            body.append(obs(len_(e)))
                            nv += 1
                            body.append(each(pbind("e%d" % nv), e, [obs(var("e%d" % nv, e.t.t))]))
                        else:
                            body.append(obs(e))
                else:
                    vs = [v for q in INTNAMES for v in self.vars[q] + self.consts[q]]
                    body.append(obs(r.choice(vs)))
        return body


def typed(e):
    """does the expression contain something that fixes its type?"""
    j = e.j
    while True:
        k = j["k"]
        if k in ("var", "call", "cast"):
            return True
        if k == "lit":
            return any(e.txt.lstrip("-(~").startswith(d) for d in "0123456789") and any(c in e.txt.split()[0].rstrip(")") for c in "lius") or e.t.name == "int"
        if k in ("neg", "bnot", "bin"):
            j = j["a"]
            continue
        return False


def gen(r, ntests):
    g = Gen(r)
    for i in range(ntests):
        g.prog.tests.append(g.test(i))
    return g.prog


def check(c):
    c.build(libs=False)
    progs = [gen(c.rng, 30) for _ in range(c.n(32, 320))]
    run_progs(c, progs)


if __name__ == "__main__":
    vlib.main(check, "L02")
