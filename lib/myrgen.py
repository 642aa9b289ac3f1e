"""Random types, values, patterns and statements for generated programs.
Nothing here decides what a program should do: the Python-side matcher only
selects arms the generator wants to be reachable."""
import re
from myrast import *

UNIT = T("void")


def rename(p, ren):
    """the pattern with its variables renamed"""
    def go(j):
        if isinstance(j, list):
            return [go(x) for x in j]
        if not isinstance(j, dict):
            return j
        if j.get("k") == "bind":
            return dict(j, n=ren[j["n"]])
        return {k: go(v) for k, v in j.items()}
    return P(re.sub(r"\bm\d+\b", lambda m: ren.get(m.group(0), m.group(0)), p.txt), go(p.j))


class Gen:
    def __init__(self, r, ntypes=5):
        self.r = r
        self.prog = Prog()
        self.uid = 0
        self.types = []         # aggregates declared in the program
        for i in range(ntypes):
            self.newtype(i)
        self.pool = {}

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    # ---------------------------------------------------------------- types
    def scalar(self):
        r = self.r
        return BOOL if r.random() < .15 else INT[r.choice(INTNAMES)]

    def newtype(self, i):
        r = self.r
        if r.random() < .5:
            t = struct("s%d" % i, [("f%d" % k, self.ty(1)) for k in range(r.randint(1, 6))])
        else:
            n = r.randint(1, 5)
            t = union("u%d" % i, [("T%d%c" % (i, 65 + k), self.ty(1) if r.random() < .65 else None) for k in range(n)])
        self.types.append(t)
        self.prog.types.append(t)
        return t

    def ty(self, d=2, ptrs=False, strs=False, slices=False):
        """a random type; nesting at most d"""
        r = self.r
        x = r.random()
        if d <= 0 or x < .35:
            return self.scalar()
        if x < .5:
            return tup(*[self.ty(d - 1, ptrs, strs, slices) for _ in range(r.randint(2, 4))])
        if x < .62:
            return arr(self.ty(d - 1, ptrs, strs, slices), r.randint(1, 4))
        if ptrs and x < .7:
            return ptr(self.ty(d - 1, ptrs, strs, slices))
        if strs and x < .78:
            return STR
        if slices and x < .84:
            return sl(self.ty(d - 1, ptrs, strs, False))
        if self.types:
            return r.choice(self.types)
        return self.scalar()

    # --------------------------------------------------------------- values
    def ints(self, n):
        """the program's favourite values of an integer type"""
        if n not in self.pool:
            w, s = INTS[n]
            r = self.r
            c = {0, 1}
            while len(c) < 6:
                v = norm(r.choice([2, 3, 5, 7, 10, 100, -1, -2, 127, 128, 255, 256, 1000, 65535, 65536, (1 << (w - 1)) - 1,
                                   (1 << w) - 1, r.getrandbits(w), r.getrandbits(w)]), n)
                if not (s and v == -(1 << (w - 1))):
                    c.add(v)
            self.pool[n] = sorted(c)
        return self.pool[n]

    STRS = [b"", b"a", b"b", b"ab", b"abc", b"abd", b"\x00", b"a\x00", b"\xff\x80", b"hello", b"hellp"]

    def value(self, t):
        r = self.r
        k = t.kind
        if k == "int":
            if r.random() < .85:
                return r.choice(self.ints(t.name))
            v = norm(r.getrandbits(INTS[t.name][0]), t.name)
            return 0 if v == -(1 << (INTS[t.name][0] - 1)) else v
        if k == "bool":
            return r.random() < .5
        if k == "struct":
            return tuple(self.value(f) for _, f in t.fields)
        if k == "tuple":
            return tuple(self.value(f) for f in t.ts)
        if k == "arr":
            return tuple(self.value(t.t) for _ in range(t.n))
        if k == "union":
            tag, f = r.choice(t.tags)
            return (tag, self.value(f) if f else None)
        if k == "ptr":
            return [self.value(t.t)]
        if k == "slice":
            if t == STR:
                return r.choice(self.STRS)
            return [self.value(t.t) for _ in range(r.randint(0, 4))]
        raise ValueError(k)

    def lit(self, t, v, pre):
        """expression denoting v; statements that have to run first go to pre"""
        k = t.kind
        if k == "int":
            return ilit(v, t)
        if k == "bool":
            return blit(v)
        if k == "struct":
            return struct_lit(t, [(i, self.lit(f, v[i], pre)) for i, (_, f) in enumerate(t.fields)])
        if k == "tuple":
            e = tup_lit([self.lit(f, v[i], pre) for i, f in enumerate(t.ts)])
            e.t = t
            return e
        if k == "arr":
            return arr_lit(t, [self.lit(t.t, x, pre) for x in v])
        if k == "union":
            f = dict(t.tags)[v[0]]
            return un_lit(t, v[0], self.lit(f, v[1], pre) if f else None)
        if k == "ptr":
            n = self.name("pt")
            pre.append(decl(n, self.lit(t.t, v[0], pre)))
            return addr(var(n, t.t))
        if k == "slice":
            if t == STR:
                return strlit(v)
            n = self.name("ar")
            if not v:
                return E("[][:]", 11, {"k": "lit", "v": {"o": 0, "p": [], "lo": 0, "hi": 0}}, t)
            at = arr(t.t, len(v))
            pre.append(decl(n, self.lit(at, tuple(v), pre)))
            return slice_(var(n, at), None, None)
        raise ValueError(k)

    def newvar(self, t, pre, v=None, nm="x"):
        """declare a variable of type t with a value"""
        n = self.name(nm)
        e = self.lit(t, self.value(t) if v is None else v, pre)
        pre.append(decl(n, e))
        return var(n, t)

    # ----------------------------------------------------------- reporting
    def show(self, e, t=None):
        """statements that report every part of e (an expression without effects)"""
        t = t or e.t
        k = t.kind
        if k in ("int", "bool"):
            return [obs(e)]
        if k == "struct":
            return [s for i in range(len(t.fields)) for s in self.show(fld(e, i))]
        if k == "tuple":
            return [s for i in range(len(t.ts)) for s in self.show(fld(e, i))]
        if k == "arr":
            return [s for i in range(t.n) for s in self.show(idx(e, ilit(i, INT["int"])))]
        if k == "union":
            arms = []
            for i, (tag, f) in enumerate(t.tags):
                if f:
                    n = self.name("b")
                    arms.append((pun(tag, pbind(n)), [obs(ilit(200 + i, U64))] + self.show(var(n, f))))
                else:
                    arms.append((pun(tag), [obs(ilit(200 + i, U64))]))
            return [match(e, arms)]
        if k == "ptr":
            return self.show(deref(e))
        if k == "slice":
            n = self.name("b")
            return [obs(len_(e)), each(pbind(n), e, self.show(var(n, t.t)))]
        raise ValueError(k)

    # ------------------------------------------------------------ patterns
    def pat(self, t, d, binds, b=True, wild=.25):
        """(pattern, pv): pv is the Python form used to select arms"""
        r = self.r
        k = t.kind
        x = r.random()
        if d <= 0 or x < wild:
            if b and r.random() < .5:
                n = self.name("m")
                binds.append((n, t))
                return pbind(n), ("w",)
            return pwild(), ("w",)
        if x < wild + .1 and k != "ptr" and not self.orfree:
            a, av = self.pat(t, d - 1, [], False, wild=0)
            c, cv = self.pat(t, d - 1, [], False, wild=0)
            return por([a, c]), ("or", [av, cv])
        if b and not self.orfree and k in ("struct", "tuple", "arr", "union") and r.random() < .15:
            q = self.bindor(t, d, binds)
            if q:
                return q
        if k == "int":
            v = r.choice(self.ints(t.name))
            if self.konsts.get(t.name) and r.random() < .25:
                n, v = r.choice(self.konsts[t.name])
                return P(n, {"k": "lit", "v": limbs(v, INTS[t.name][0])}), ("v", v)
            return plit(ilit(v, t)), ("v", v)
        if k == "bool":
            v = r.random() < .5
            return plit(blit(v)), ("v", v)
        if k == "struct":
            ix = sorted(r.sample(range(len(t.fields)), r.randint(1, len(t.fields))))
            ps = [(i, self.pat(t.fields[i][1], d - 1, binds, b)) for i in ix]
            return pstruct(t, [(i, p) for i, (p, _) in ps]), ("seq", [(i, v) for i, (_, v) in ps])
        if k == "tuple":
            ps = [self.pat(f, d - 1, binds, b) for f in t.ts]
            return ptup([p for p, _ in ps]), ("seq", [(i, v) for i, (_, v) in enumerate(ps)])
        if k == "arr":
            ps = [self.pat(t.t, d - 1, binds, b) for _ in range(t.n)]
            return parr([p for p, _ in ps]), ("seq", [(i, v) for i, (_, v) in enumerate(ps)])
        if k == "union":
            tag, f = r.choice(t.tags)
            if f is None:
                return pun(tag), ("un", tag, None)
            p, v = self.pat(f, d - 1, binds, b)
            return pun(tag, p), ("un", tag, v)
        if k == "ptr":
            p, v = self.pat(t.t, d - 1, binds, b)
            return pptr(p), ("seq", [(0, v)])
        if k == "slice" and t == STR:
            s = r.choice(self.STRS)
            return pstr(s), ("v", s)
        return pwild(), ("w",)

    def bindor(self, t, d, binds):
        """alternatives that bind the same variables, each at places of its own"""
        r = self.r
        was = self.orfree
        self.orfree = True
        best = None
        for _ in range(8):
            b1 = []
            p = self.pat(t, d, b1, True, wild=.5)
            if b1 and p[1] != ("w",) and (best is None or len(b1) > len(best[1])):
                best = p, b1
        got = []
        if best:
            p, b1 = best
            # the compiler asks for the same variables in the same order
            key = lambda bs: [x.txt() for _, x in bs]
            got = [p]
            for _ in range(60):
                b2 = []
                p2, pv2 = self.pat(t, d, b2, True, wild=.5)
                if key(b2) == key(b1) and pv2 not in [g[1] for g in got] and pv2 != ("w",):
                    got.append((rename(p2, {n: m for (n, _), (m, _) in zip(b2, b1)}), pv2))
                    if len(got) >= 3 or r.random() < .5:
                        break
        self.orfree = was
        if len(got) < 2:
            return None
        binds += best[1]
        return por([g[0] for g in got]), ("or", [g[1] for g in got])

    konsts = {}
    orfree = False

    def konst(self, k=6):
        """integer constants that patterns may name"""
        self.konsts = {}
        for _ in range(k):
            n = self.r.choice(INTNAMES)
            v = self.r.choice(self.ints(n))
            nm = self.name("K")
            self.prog.globals.append((nm, ilit(v, INT[n]), True))
            self.konsts.setdefault(n, []).append((nm, v))

    def matches(self, pv, v):
        k = pv[0]
        if k == "w":
            return True
        if k == "v":
            return v == pv[1]
        if k == "or":
            return any(self.matches(q, v) for q in pv[1])
        if k == "seq":
            return all(self.matches(q, v[i]) for i, q in pv[1])
        if k == "un":
            return v[0] == pv[1] and (pv[2] is None or self.matches(pv[2], v[1]))

    def witness(self, t, pv):
        """a value the pattern matches"""
        k = pv[0]
        if k == "w":
            return self.value(t)
        if k == "v":
            return pv[1]
        if k == "or":
            return self.witness(t, self.r.choice(pv[1]))
        if k == "seq":
            if t.kind == "ptr":
                return [self.witness(t.t, pv[1][0][1])]
            v = list(self.value(t))
            for i, q in pv[1]:
                f = t.fields[i][1] if t.kind == "struct" else t.ts[i] if t.kind == "tuple" else t.t
                v[i] = self.witness(f, q)
            return tuple(v)
        if k == "un":
            f = dict(t.tags)[pv[1]]
            return (pv[1], self.witness(f, pv[2]) if f else None)

    def alternatives(self, pv):
        """the or-free patterns a pattern stands for"""
        k = pv[0]
        if k == "or":
            return [a for q in pv[1] for a in self.alternatives(q)]
        if k == "seq":
            r = [[]]
            for i, q in pv[1]:
                r = [x + [(i, a)] for x in r for a in self.alternatives(q)]
            return [("seq", x) for x in r]
        if k == "un" and pv[2] is not None:
            return [("un", pv[1], a) for a in self.alternatives(pv[2])]
        return [pv]

    def arms(self, t, n, d=3):
        """patterns for a match over t, each reachable, ending with one that matches all.
        Returns [(pattern, binds, witnesses)]"""
        out, prev = [], []
        for i in range(n * 3):
            if len(out) >= n:
                break
            binds = []
            p, pv = self.pat(t, d, binds, wild=0 if self.r.random() < .8 else .2)
            alts = self.alternatives(pv)
            if len(alts) > 12:
                continue
            ws, ok, mine = [], True, []
            for a in alts:
                for _ in range(8):
                    v = self.witness(t, a)
                    if not any(self.matches(q, v) for q in prev + mine):
                        ws.append(v)
                        break
                else:
                    ok = False
                    break
                mine.append(a)
            if not ok:
                continue
            # something has to be left for the last arm
            prev2 = prev + mine
            if not any(not any(self.matches(q, v) for q in prev2) for v in [self.value(t) for _ in range(60)]):
                continue
            prev = prev2
            out.append((p, binds, ws))
        v = next(v for v in iter(lambda: self.value(t), None) if not any(self.matches(q, v) for q in prev))
        binds = []
        if self.r.random() < .5:
            nm = self.name("m")
            binds = [(nm, t)]
            out.append((pbind(nm), binds, [v]))
        else:
            out.append((pwild(), [], [v]))
        return out
