"""Random generic code: parameterised types, generic functions and values,
traits with overlapping implementations, and calls at many types.  What they
mean is for spec/Myr.tla to say; here only typing is tracked."""
import re
from myrast import *
from myrgen import Gen

INTW = INT["int"]
SHORT = "bsiwqHBSIWQ"


def has(t, kinds):
    k = t.kind
    if k in kinds:
        return True
    return any(has(u, kinds) for u in parts(t))


def parts(t):
    k = t.kind
    if k == "struct":
        return [f for _, f in t.fields]
    if k == "union":
        return [f for _, f in t.tags if f]
    if k == "tuple":
        return t.ts
    if k in ("arr", "slice", "ptr"):
        return [t.t]
    if k == "fn":
        return t.args + [t.ret]
    return []


def match_ty(p, t, m, vs):
    """pattern p (with parameters vs) against t: extends m"""
    if p.kind == "param" and p.name in vs:
        if p.name in m:
            return m[p.name] == t
        m[p.name] = t
        return True
    if p.kind != t.kind:
        return False
    if p.kind in ("struct", "union"):
        if getattr(p, "head", p.name) != getattr(t, "head", t.name):
            return False
        return all(match_ty(a, b, m, vs) for a, b in zip(getattr(p, "targs", []), getattr(t, "targs", [])))
    if p.kind == "arr":
        return p.n == t.n and match_ty(p.t, t.t, m, vs)
    if p.kind in ("slice", "ptr"):
        return match_ty(p.t, t.t, m, vs)
    if p.kind == "tuple":
        return len(p.ts) == len(t.ts) and all(match_ty(a, b, m, vs) for a, b in zip(p.ts, t.ts))
    if p.kind == "fn":
        return len(p.args) == len(t.args) and all(match_ty(a, b, m, vs) for a, b in zip(p.args + [p.ret], t.args + [t.ret]))
    return p.txt() == t.txt()


def unifiable(a, b):
    """might a type match both patterns (over-approximated)"""
    if a.kind == "param" or b.kind == "param":
        return True
    if a.kind != b.kind:
        return False
    if a.kind in ("struct", "union"):
        return getattr(a, "head", a.name) == getattr(b, "head", b.name) and \
            all(unifiable(x, y) for x, y in zip(getattr(a, "targs", []), getattr(b, "targs", [])))
    if a.kind == "arr":
        return a.n == b.n and unifiable(a.t, b.t)
    if a.kind in ("slice", "ptr"):
        return unifiable(a.t, b.t)
    if a.kind == "tuple":
        return len(a.ts) == len(b.ts) and all(unifiable(x, y) for x, y in zip(a.ts, b.ts))
    if a.kind == "fn":
        return len(a.args) == len(b.args) and all(unifiable(x, y) for x, y in zip(a.args + [a.ret], b.args + [b.ret]))
    return a.txt() == b.txt()


def params(t, acc=None):
    acc = [] if acc is None else acc
    if t.kind == "param":
        if t.name not in acc:
            acc.append(t.name)
    else:
        for u in (getattr(t, "targs", []) if t.kind in ("struct", "union") else parts(t)):
            params(u, acc)
    return acc


class GT:
    """a parameterised type"""
    def __init__(self, name, kind, ps, members):
        self.name, self.kind, self.ps, self.members = name, kind, ps, members

    def at(self, args):
        m = dict(zip(self.ps, args))
        mem = [(n, self.sub(f, m) if f else None) for n, f in self.members]
        t = (struct if self.kind == "struct" else union)("%s(%s)" % (self.name, ", ".join(a.txt() for a in args)), mem)
        t.head, t.targs, t.gt = self.name, list(args), self
        return t

    def sub(self, t, m):
        return subst(t, m)

    def text(self):
        t = (struct if self.kind == "struct" else union)(self.name, self.members)
        return tydecl(t, "(%s)" % ", ".join(self.ps))


def subst(t, m):
    k = t.kind
    if k == "param":
        return m.get(t.name, t)
    if k in ("struct", "union"):
        if getattr(t, "targs", None):
            return t.gt.at([subst(a, m) for a in t.targs])
        return t
    if k == "tuple":
        return tup(*[subst(u, m) for u in t.ts])
    if k == "arr":
        return arr(subst(t.t, m), t.n)
    if k == "slice":
        return sl(subst(t.t, m))
    if k == "ptr":
        return ptr(subst(t.t, m))
    if k == "fn":
        return fn([subst(a, m) for a in t.args], subst(t.ret, m))
    return t


def param(n):
    return T("param", name=n)


def tcast(e, t):
    """a literal with its type"""
    if t.kind not in ("int", "flt") or e.j.get("k") == "lit" and e.txt[0] == "-" and len(e.txt) > 9:
        return through(e, t)
    return E("(%s : %s)" % (e.txt, t.txt()), 12, e.j, t, e.call)


def through(e, t):
    """a cast would not tell what the type is: passed through a function"""
    return E("{z : %s -> %s; -> z;}(%s)" % (t.txt(), t.txt(), e.txt), 12, e.j, t, True)


def glit(v, t):
    """literal of a numeric parameter's type"""
    return E("(%d : %s)" % (v, t.txt()), 12, {"k": "glit", "v": v, "y": t.name}, t)


class Ctx:
    """what a body may use: variables, and the bounds of type parameters"""
    def __init__(self, bounds, vs):
        self.bounds, self.vs = bounds, list(vs)     # {"@a": set}, [(name, T, assignable)]


class GenericGen(Gen):
    def __init__(self, r):
        super().__init__(r, ntypes=0)
        r = self.r
        self.tys = [INT[n] for n in r.sample(INTNAMES, r.choice((2, 3, 4)))]
        self.flts = [r.choice([FLT64, FLT32])] if r.random() < .5 else []
        self.seq = 0
        self.gts, self.closed = [], []
        self.gfns, self.traits, self.iters = [], [], []
        self.deep = 0

    def tag(self):
        self.seq += 1
        return ilit(1000 + self.seq, U64)

    # ---------------------------------------------------------------- types
    def scalar(self):
        r = self.r
        return BOOL if r.random() < .1 else r.choice(self.tys) if r.random() < .9 else INT[r.choice(INTNAMES)]

    def gtypes(self):
        r = self.r
        long = "long_" * r.choice((12, 50, 100)) if r.random() < .12 else ""
        stems = [long + x for x in r.sample(["pr", "qq", "pa", "box", "opt", "pai", "li", "tt", "node"], 3)]
        for i, n in enumerate(stems):
            ps = ["@a"] if r.random() < .5 else ["@a", "@b"]
            pv = [param(p) for p in ps]
            def part():
                x = r.random()
                p = r.choice(pv)
                return p if x < .55 else arr(p, r.randint(1, 3)) if x < .65 else tup(p, self.scalar()) if x < .75 else \
                    r.choice(self.gts).at([r.choice(pv + [self.scalar()]) for _ in range(9)][:len(self.gts[-1].ps)]) if 0 else self.scalar()
            if r.random() < .55:
                ms = [("m%d" % k, pv[k] if k < len(pv) else part()) for k in range(r.randint(len(pv), len(pv) + 2))]
                r.shuffle(ms)
                g = GT(n, "struct", ps, ms)
            else:
                ms = [("G%d%c" % (i, 65 + k), pv[k] if k < len(pv) else part() if r.random() < .6 else None)
                      for k in range(r.randint(len(pv), len(pv) + 2))]
                r.shuffle(ms)
                g = GT(n, "union", ps, ms)
            self.gts.append(g)
            self.prog.types.append(g.text())
        # closed types whose names continue those of the parameterised ones
        for k in range(r.randint(1, 3)):
            n = r.choice(stems) + r.choice(SHORT) + (r.choice(SHORT) if r.random() < .3 else "")
            if n in stems or any(t.name == n for t in self.closed):
                continue
            if r.random() < .6:
                t = struct(n, [("c%d" % j, self.scalar()) for j in range(r.randint(1, 4))])
            else:
                m = r.randint(1, 3)
                t = union(n, [("C%d%c%s" % (k, 65 + j % 26, j // 26 or ""), self.scalar() if r.random() < .5 else None) for j in range(m)])
            self.closed.append(t)
            self.prog.types.append(t)

    def cty(self, d=2, flt=True, fns=True, leaf=None):
        """a closed type to instantiate at; leaf: instead of scalars"""
        r = self.r
        x = r.random()
        if d <= 0 or x < .3:
            if leaf and r.random() < .6:
                return r.choice(leaf)
            if flt and self.flts and r.random() < .1:
                return self.flts[0]
            return self.scalar()
        if x < .38 and self.closed:
            return r.choice(self.closed)
        if x < .62 and self.gts:
            g = r.choice(self.gts)
            return g.at([self.cty(d - 1, flt, fns, leaf) for _ in g.ps])
        if x < .74:
            return tup(*[self.cty(d - 1, flt, fns, leaf) for _ in range(r.randint(1, 3))])
        if x < .8:
            return arr(self.cty(d - 1, flt, False, leaf), r.randint(1, 3) + r.choice((0,) * 12 + (16,)))
        if x < .88:
            return sl(self.cty(d - 1, flt, False, leaf))
        if x < .92:
            return ptr(self.cty(d - 1, flt, False, leaf))
        if fns and x < .96:
            return fn([self.cty(d - 1, flt, False, leaf) for _ in range(r.randint(0, 2))], self.cty(d - 1, flt, False, leaf))
        return self.scalar()

    # --------------------------------------------------------------- values
    def value(self, t):
        if t.kind == "flt":
            return self.r.randint(-50, 50)
        if t.kind == "fn":
            return None
        return super().value(t)

    def lit(self, t, v, pre):
        if t.kind == "flt":
            return flit(v, t)
        if t.kind == "fn":
            n = self.name("fv")
            ps = [(self.name("x"), a) for a in t.args]
            body = []
            if t.ret == VOID:
                raise ValueError("void")
            e = next((var(x, y) for x, y in ps if y == t.ret), None)
            if e is None or self.r.random() < .5:
                # a value from outside, captured
                w = self.newvar(t.ret, pre, nm="cv")
                e = w
                caps = [w.txt]
            else:
                caps = []
            f = Fn(n + "l", ps, t.ret, [obs(self.tag()), ret(e)])
            self.prog.lams.append(f)
            pre.append(decl(n, Lam.make(f, caps), ty=False))
            return var(n, t)
        return super().lit(t, v, pre)

    def show(self, e, t=None):
        t = t or e.t
        if t.kind == "flt":
            return [obs(e)]
        if t.kind == "fn":
            # call it
            pre = []
            args = [self.newvar(a, pre, nm="sa") for a in t.args]
            n = self.name("sr")
            return pre + [decl(n, callv(e, args))] + (self.show(var(n, t.ret)) if t.ret.kind != "fn" else [])
        if t.kind == "struct" and len(t.fields) == 0:
            return []
        return super().show(e, t)

    # --------------------------------------------------------------- traits
    def sat(self, tr, t, bounds):
        """does t have the trait; for parameters look at their bounds"""
        if t.kind == "param":
            return tr in bounds.get(t.name, ()) or (tr == "numeric" and "integral" in bounds.get(t.name, ()))
        if tr == "numeric":
            return t.kind in ("int", "flt")
        if tr == "integral":
            return t.kind == "int"
        return self.best(tr, t, bounds) is not None

    def best(self, tr, t, bounds):
        c = []
        for i in tr.impls:
            m = {}
            if match_ty(i.pat, t, m, i.ps) and all(self.sat(b, m[p], bounds) for p, b in i.bounds):
                c.append(i)
        return c or None

    def bound_txt(self, bounds):
        """the suffix that lists the bounds"""
        l = []
        for p in sorted(bounds):
            bs = sorted(b if isinstance(b, str) else b.name for b in bounds[p])
            if bs:
                l.append("%s %s" % (",".join(bs), p))
        return " :: " + ", ".join(l) if l else ""


class Impl:
    def __init__(self, pat, ps, bounds):
        self.pat, self.ps, self.bounds = pat, ps, bounds


class Trait:
    def __init__(self, name, fns, aux=None):
        self.name, self.fns, self.impls, self.aux = name, fns, [], aux     # fns: [(kind, function name)]

    def __repr__(self):
        return self.name


class GFn:
    """a generic function: type parameters with bounds, arguments, result"""
    def __init__(self, name, ps, bounds, args, ret, cost):
        self.name, self.ps, self.bounds, self.args, self.ret, self.cost = name, ps, bounds, args, ret, cost


def free(j, bound, acc):
    """names of variables used in a syntax tree, other than those bound"""
    if isinstance(j, list):
        for x in j:
            free(x, bound, acc)
    elif isinstance(j, dict):
        if j.get("k") == "var" and j["n"] not in bound and j["n"] not in acc:
            acc.append(j["n"])
        if j.get("k") == "lam":
            for n in j["caps"]:
                if n not in bound and n not in acc:
                    acc.append(n)
        for x in j.values():
            free(x, bound, acc)


class Bodies(GenericGen):
    """expressions and statements whose types mention type parameters"""
    def numeric(self, t, cx):
        return t.kind in ("int", "flt") or t.kind == "param" and ({"numeric", "integral"} & set(map(str, cx.bounds.get(t.name, ()))))

    def integral(self, t, cx):
        return t.kind == "int" or t.kind == "param" and "integral" in cx.bounds.get(t.name, ())

    def num(self, v, t):
        return glit(v, t) if t.kind == "param" else tcast(ilit(v, t), t) if t.kind == "int" else tcast(flit(v, t), t)

    def proj(self, e, d=2):
        """e and its parts"""
        out = [e]
        if d:
            t = e.t
            if t.kind in ("struct", "tuple"):
                for i in range(len(t.fields if t.kind == "struct" else t.ts)):
                    out += self.proj(fld(e, i), d - 1)
            elif t.kind == "arr":
                out += self.proj(idx(e, ilit(self.r.randrange(t.n), INTW)), d - 1)
            elif t.kind == "ptr":
                out += self.proj(deref(e), d - 1)
        return out

    def reads(self, t, cx):
        return [p for n, y, _ in cx.vs for p in self.proj(var(n, y)) if p.t == t]

    def pickcall(self, t, cx):
        """a generic function with result t: (function, instantiation)"""
        fs = [f for f in self.gfns if self.spent + f.cost < 40]
        self.r.shuffle(fs)
        for f in fs:
            m = {}
            if not match_ty(f.ret, t, m, f.ps):
                continue
            pool = [y for _, y, _ in cx.vs] + [param(p) for p in cx.bounds] + self.tys
            ok = True
            for p in f.ps:
                if p in m:
                    c = [m[p]]
                else:
                    c = list(pool)
                    self.r.shuffle(c)
                c = [y for y in c if all(self.sat(b, y, cx.bounds) for b in f.bounds.get(p, ()))]
                if not c:
                    ok = False
                    break
                m[p] = c[0]
            if ok and all(self.makeable(subst(a, m), cx) for _, a in f.args):
                return f, m
        return None

    def makeable(self, t, cx, d=3):
        """an expression of type t can be written"""
        if self.reads(t, cx):
            return True
        k = t.kind
        if k == "param":
            return bool(self.numeric(t, cx)) or any(self.sat(tr, t, cx.bounds) for tr in self.traits if tr.kinds & {"mk", "kst"})
        if k in ("slice", "ptr"):
            return False
        if k == "fn":
            return self.lamok and self.makeable(t.ret, Ctx(cx.bounds, cx.vs + [("?", a, False) for a in t.args]))
        if k == "union":
            return any(f is None or self.makeable(f, cx, d - 1) for _, f in t.tags) and d > 0
        return all(self.makeable(p, cx, d - 1) for p in parts(t)) and d > 0

    def gexpr(self, t, cx, d=3, ty=False):
        """ty: the context tells the type"""
        r = self.r
        rd = self.reads(t, cx)
        opts = []
        if rd:
            opts += ["read"] * (6 if d <= 0 else 3)
        if d > 0:
            if self.numeric(t, cx):
                opts += ["arith"] * 2
            if self.integral(t, cx):
                opts += ["cast"]
            if t == U64:
                opts += ["id"] * 2
            if t == BOOL:
                opts += ["cmp"] * 2
            opts += ["call"] * 3 + ["trait"] * 2 + ["tern"]
        k = t.kind
        if k in ("int", "flt", "bool") or k == "param" and self.numeric(t, cx):
            opts += ["lit"]
        elif k in ("struct", "union", "tuple", "arr", "fn"):
            opts += ["cons"]
        r.shuffle(opts)
        for o in opts:
            self.ty = ty
            e = getattr(self, "e_" + o)(t, cx, d)
            if e is not None:
                return e
        # whatever is left
        for o in ("read", "lit", "cons", "trait"):
            self.ty = ty
            if o == "trait":
                self.spent = min(self.spent, 30)
            e = getattr(self, "e_" + o)(t, cx, d)
            if e is not None:
                return e
        raise ValueError("cannot make " + t.txt())

    def e_read(self, t, cx, d):
        rd = self.reads(t, cx)
        return self.r.choice(rd) if rd else None

    def e_lit(self, t, cx, d):
        r = self.r
        if t.kind == "int":
            return tcast(ilit(self.value(t), t), t)
        if t.kind == "bool":
            return blit(r.random() < .5)
        if t.kind == "flt":
            return tcast(flit(r.randint(0, 50), t), t)
        if t.kind == "param" and self.numeric(t, cx):
            if self.gconsts and self.integral(t, cx) and r.random() < .3:
                n, v = r.choice(self.gconsts)
                return E("(%s : %s)" % (n, t.txt()), 12, {"k": "glit", "v": v, "y": t.name}, t)
            return glit(r.randint(0, 100), t)

    def e_arith(self, t, cx, d):
        r = self.r
        if not self.integral(t, cx):
            # floats stay small, so that arithmetic is exact
            rd = self.reads(t, cx)
            if not rd:
                return None
            return bin_(r.choice("+-"), r.choice(rd), self.num(r.randint(0, 20), t))
        x = r.random()
        a = self.gexpr(t, cx, d - 1)
        if x < .6:
            return bin_(r.choice(["+", "-", "*", "&", "|", "^"]), a, self.gexpr(t, cx, d - 1))
        if x < .75:
            return bin_(r.choice("/%"), a, self.num(r.randint(1, 9), t))
        if x < .9:
            return bin_(r.choice(["<<", ">>"]), a, self.num(r.randint(0, 7), t))
        return r.choice([neg, bnot])(a)

    def e_cast(self, t, cx, d):
        c = [y for y in self.tys + [param(p) for p in cx.bounds] if y != t and self.integral(y, cx)]
        if not c:
            return None
        y = self.r.choice(c)
        e = self.gexpr(y, cx, d - 1)
        return E("(%s : %s)" % (e.txt, t.txt()), 12, {"k": "cast", "y": t.txt(), "fy": y.txt(), "a": e.j}, t, e.call)

    def e_id(self, t, cx, d):
        r = self.r
        c = [(tr, f, v) for tr in self.traits for kd, f in tr.fns if kd == "id" for n, y, _ in cx.vs for v in self.proj(var(n, y))
             if self.sat(tr, v.t, cx.bounds)]
        if not c or self.spent > 30:
            return None
        tr, f, v = r.choice(c)
        self.spent += 4
        return tcall(f, v.t, [v], U64)

    def e_cmp(self, t, cx, d):
        r = self.r
        c = [y for y in self.tys + [param(p) for p in cx.bounds] if self.numeric(y, cx)]
        c += [y for _, y, _ in cx.vs if y.kind == "flt"]
        y = r.choice(c)
        a, b = self.gexpr(y, cx, d - 1), self.gexpr(y, cx, d - 1)
        return paren(cmp_(r.choice(["<", "<=", ">", ">=", "==", "!="]), a, b))

    def e_tern(self, t, cx, d):
        if t.kind in ("union", "fn"):
            return None
        ty = self.ty
        return paren(tern(self.gexpr(BOOL, cx, d - 1, True), self.gexpr(t, cx, d - 1, ty), self.gexpr(t, cx, d - 1, ty)))

    def e_call(self, t, cx, d):
        fm = self.pickcall(t, cx)
        if not fm:
            return None
        f, m = fm
        self.spent += f.cost
        ty = self.ty
        args = [self.garg(subst(a, m), cx, d - 1, subst(f.ret, m), not params(a)) for _, a in f.args]
        e = call(f.name, args, t, m)
        # parameters that only the result has
        if set(params(f.ret)) - set(params(tup(*[a for _, a in f.args]))):
            return self.wrap(e, t, ty)
        return e

    def wrap(self, e, t, ty):
        return e if ty and self.r.random() < .8 else through(e, t)

    def garg(self, t, cx, d, rt, ty):
        if t.kind == "fn" and (not self.reads(t, cx) or self.r.random() < .5) and not has(rt, ("fn",)):
            e = self.lam(t, cx, d)
            if e:
                return e
        return self.gexpr(t, cx, d, ty)

    def lam(self, t, cx, d):
        """a function literal on one line (it stands inside parentheses)"""
        if not self.lamok:
            return None
        ps = [(self.name("x"), a) for a in t.args]
        keep, self.lamok = self.lamok, False
        try:
            b = self.gexpr(t.ret, Ctx(cx.bounds, cx.vs + [(n, a, False) for n, a in ps]), d - 1, True)
        finally:
            self.lamok = keep
        f = Fn(self.name("lm"), ps, t.ret, [obs(self.tag()), ret(b)])
        self.prog.lams.append(f)
        caps = []
        free(b.j, [n for n, _ in ps], caps)
        e = Lam.make(f, caps)
        # not all the types have to be written
        head = "{" + ", ".join("%s : %s" % (n, a.txt()) for n, a in ps) + " -> " + t.ret.txt()
        e.txt = head + "; " + "; ".join(l for s in f.body for l in s.lines) + ";}"
        return e

    def e_trait(self, t, cx, d):
        r = self.r
        c = [(tr, kd, f) for tr in self.traits for kd, f in tr.fns if kd in ("mk", "cmb", "kst") and (d > 0 or kd != "cmb") and self.sat(tr, t, cx.bounds)]
        if not c or self.spent > 30:
            return None
        tr, kd, f = r.choice(c)
        self.spent += 4
        ty = self.ty
        if kd == "mk":
            return self.wrap(tcall(f, t, [self.gexpr(U64, cx, d - 1, True)], t), t, ty)
        if kd == "kst":
            e = tcall(f, t, [], t)
            e.txt = "impl(%s, %s)" % (f, t.txt())
            e.call = False
            return e
        if not self.makeable(t, cx):
            return None
        if d <= 0:
            return None
        return self.wrap(tcall(f, t, [self.gexpr(t, cx, d - 1, True), self.gexpr(t, cx, d - 1, True)], t), t, ty)

    def e_cons(self, t, cx, d):
        r = self.r
        k, ty = t.kind, self.ty
        if k == "fn":
            return self.lam(t, cx, d)
        if k == "union":
            c = [(tag, f) for tag, f in t.tags if f is None or self.makeable(f, cx)]
            if not c:
                return None
            tag, f = r.choice(c)
            return self.wrap(un_lit(t, tag, self.gexpr(f, cx, d - 1, True) if f else None), t, ty)
        if k not in ("struct", "tuple", "arr"):
            return None
        if not all(self.makeable(p, cx) for p in parts(t)):
            return None
        if k == "struct":
            ix = list(range(len(t.fields)))
            r.shuffle(ix)
            return self.wrap(struct_lit(t, [(i, self.gexpr(t.fields[i][1], cx, d - 1, True)) for i in ix]), t, ty)
        if k == "tuple":
            e = tup_lit([self.elem(f, cx, d - 1) for f in t.ts])
            e.t = t
            return e
        # traits of the element's type are checked before the context is known
        return arr_lit(t, [self.elem(t.t, cx, d - 1) for _ in range(t.n)])

    def elem(self, t, cx, d):
        e = self.gexpr(t, cx, d)
        # the type of a member isn't known at once either
        return through(e, t) if re.search(r"[.]\w+", e.txt) and e.j["k"] in ("fld", "idx", "deref", "mem", "tern", "bin", "cond") else e

    # ----------------------------------------------------------- statements
    def gstmts(self, cx, n, d=2):
        out = []
        for _ in range(n):
            out += self.gstmt(cx, d)
        return out

    def inner(self, cx, d, n=None, extra=()):
        return self.gstmts(Ctx(cx.bounds, cx.vs + list(extra)), n or self.r.randint(1, 2), d - 1)

    def gstmt(self, cx, d):
        r = self.r
        x = r.random()
        if x < .3:
            # a local, of a type that is around, or built from one
            t = r.choice([y for _, y, _ in cx.vs if y.kind not in ("slice", "ptr", "fn")] + [param(p) for p in cx.bounds] + self.tys)
            if r.random() < .3:
                g = r.choice(self.gts) if self.gts and r.random() < .6 else None
                t = g.at([t for _ in g.ps]) if g else tup(t, r.choice(self.tys)) if r.random() < .6 else arr(t, 2)
            if not self.makeable(t, cx):
                return []
            n = self.name("v")
            ty = r.random() < .6
            e = self.gexpr(t, cx, 3, ty)
            cx.vs.append((n, t, True))
            return [decl(n, e, ty=ty)]
        if x < .45:
            lv = [p for n, y, a in cx.vs if a for p in self.proj(var(n, y)) if p.t.kind not in ("slice", "ptr", "fn")]
            if not lv:
                return []
            l = r.choice(lv)
            if self.integral(l.t, cx) and r.random() < .4:
                if r.random() < .3:
                    return [inc(l, r.choice((1, -1)))]
                return [opasn(l, r.choice(["+", "-", "*", "&", "|", "^"]), self.gexpr(l.t, cx, 2, True))]
            if not self.makeable(l.t, cx):
                return []
            return [asn(l, self.gexpr(l.t, cx, 3, True))]
        if x < .6:
            return [obs(self.gexpr(U64, cx, 3, True))]
        if x < .7:
            return [if_(self.gexpr(BOOL, cx, 2, True), self.inner(cx, d), self.inner(cx, d) if r.random() < .6 else None)] if d > 0 else []
        if x < .78 and d > 0:
            i = self.name("i")
            v = var(i, INTW)
            keep, self.spent = self.spent, self.spent * 2 + 8
            s = for_(decl(i, ilit(0, INTW)), cmp_("<", v, ilit(r.randint(1, 3), INTW)), inc(v), self.inner(cx, d, extra=[(i, INTW, False)]))
            return [s]
        if x < .92 and d > 0:
            c = [p for n, y, _ in cx.vs for p in self.proj(var(n, y)) if p.t.kind in ("slice", "arr", "union")
                 or p.t.kind == "param" and any(isinstance(b, tuple) for b in cx.bounds.get(p.t.name, ()))]
            if not c:
                return []
            p = r.choice(c)
            b = self.name("b")
            if p.t.kind == "union":
                arms = []
                for tag, f in p.t.tags:
                    if f:
                        arms.append((pun(tag, pbind(b)), self.inner(cx, d, extra=[(b, f, True)])))
                    else:
                        arms.append((pun(tag), self.inner(cx, d)))
                if len(arms) > 1 and r.random() < .3:
                    arms[-1] = (pwild(), self.inner(cx, d))
                return [match(p, arms)]
            keep, self.spent = self.spent, self.spent * 2 + 8
            if p.t.kind == "param":
                el = [x[1] for x in cx.bounds[p.t.name] if isinstance(x, tuple)][0]
                return [eachit(pbind(b), p, el, self.inner(cx, d, extra=[(b, el, True)]))]
            return [each(pbind(b), p, self.inner(cx, d, extra=[(b, p.t.t, True)]))]
        if x < .97 and self.lamok:
            # a function kept in a variable
            c = [param(p) for p in cx.bounds] + self.tys
            t = fn([r.choice(c) for _ in range(r.randint(0, 2))], r.choice(c))
            if not self.makeable(t, cx):
                return []
            e = self.lam(t, cx, 2)
            n = self.name("f")
            args = [self.gexpr(a, cx, 1, True) for a in t.args] if all(self.makeable(a, cx) for a in t.args) else None
            if args is None or t.ret.kind == "fn":
                return []
            m = self.name("w")
            cx.vs.append((m, t.ret, True))
            return [decl(n, e, ty=False), decl(m, callv(var(n, t), args), ty=r.random() < .5)]
        return []

    lamok = True
    gconsts = ()
    spent = 0


def rank(t):
    """6m takes the implementation with the most matching constructors, not counting named types
    and not minding whether a parameter stands for one type only (ambiguity is a compile error)"""
    if t.kind == "param":
        return 0
    if t.kind in ("struct", "union"):
        return sum(rank(x) for x in getattr(t, "targs", ()))
    return 1 + sum(rank(x) for x in parts(t))


def linear(t):
    """no parameter twice"""
    def n(t):
        if t.kind == "param":
            return [t.name]
        return sum(map(n, getattr(t, "targs", None) or parts(t)), [])
    x = n(t)
    return len(x) == len(set(x))


class LGen(Bodies):
    def setup(self):
        r = self.r
        self.gtypes()
        self.gconsts = []
        for _ in range(2):
            n = self.name("Gc")
            v = r.randint(0, 100)
            self.prog.types.append("generic %s : @a = %d :: integral,numeric @a\n" % (n, v))
            self.gconsts.append((n, v))
        for _ in range(r.choice((1, 2, 2))):
            self.trait()
        self.eltrait()
        if r.random() < .8:
            self.iterator()
        for _ in range(r.randint(5, 8)):
            self.generic()

    def pattern(self, mk):
        """a type pattern to implement a trait for"""
        r = self.r
        a, b = param("@a"), param("@b")
        x = r.random()
        if x < .1 and not mk:
            return sl(a) if r.random() < .5 else sl(r.choice(self.tys))
        if x < .18 and not mk:
            return ptr(a) if r.random() < .5 else ptr(r.choice(self.tys))
        if x < .22 and not mk:
            return fn([a], b) if r.random() < .5 else fn([a], a)
        if x < .35:
            return arr(a, r.randint(1, 3)) if r.random() < .5 else arr(r.choice(self.tys), r.randint(1, 3))
        if x < .5:
            return tup(*[r.choice([a, b, self.scalar()]) for _ in range(r.randint(1, 3))])
        if x < .75:
            g = r.choice(self.gts)
            return g.at([a, b][:len(g.ps)]) if r.random() < .6 else g.at([r.choice([a, b, self.scalar(), self.cty(1, False, False)]) for _ in g.ps])
        if x < .85 and self.closed:
            return r.choice(self.closed)
        return self.cty(2, False, not mk)

    def trait(self):
        r = self.r
        n = self.name("tr")
        kinds = r.sample(["id", "mk", "cmb"], r.choice((1, 2, 2, 3)))
        if "mk" in kinds and "id" not in kinds:
            kinds.append("id")
        # some functions' names end, or begin, with those of others
        x = r.random()
        pre = dict(zip(r.sample(kinds, len(kinds)), ("", "un", "reun")))
        fname = (lambda k: "%s%s" % (k, n)) if x < .5 else (lambda k: "%sdo%s" % (pre[k], n)) if x < .85 else (lambda k: "do%s%s" % (n, pre[k]))
        tr = Trait(n, [(k, fname(k)) for k in kinds])
        tr.kinds = set(kinds)
        mk = "mk" in kinds or "cmb" in kinds
        sig = {"id": "(v : @x -> uint64)", "mk": "(k : uint64 -> @x)", "cmb": "(a : @x, b : @x -> @x)", "kst": "@x"}
        pats = [r.choice(self.tys)]
        for t in self.tys + [BOOL] + self.flts + self.closed:
            if r.random() < .6 and t not in pats:
                pats.append(t)
        for _ in range(r.randint(3, 7)):
            p = self.pattern(mk)
            if not linear(p) or mk and has(p, ("slice", "ptr", "fn")):
                continue
            pats.append(p)
        catch = None
        if r.random() < .3 and not mk:
            pats.append(param("@a"))
        order = pats
        tr.impls = []
        self.prog.traits[n] = tr.fns[0][1]
        self.prog.types.append("trait %s @x =\n%s;;\n" % (n, "".join("\t%s : %s\n" % (f, sig[k]) for k, f in tr.fns)))
        self.traits.append(tr)
        for p in order:
            self.impl(tr, p)

    def impl(self, tr, p):
        r = self.r
        ps = params(p)
        # for any two implementations, one is more specific or they are disjoint
        for i in tr.impls:
            if unifiable(i.pat, p):
                a = match_ty(i.pat, p, {}, i.ps)
                b = match_ty(p, i.pat, {}, ps)
                if a == b or (a and rank(i.pat) >= rank(p)) or (b and rank(p) >= rank(i.pat)):
                    return
        bounds = []
        cb = {}
        for q in ps:
            b = []
            x = r.random()
            if x < .6:
                b = [tr]
            elif x < .75 and len(self.traits) > 1:
                b = [r.choice(self.traits)]
            elif x < .85:
                b = ["numeric", "integral"]
            if p.kind == "param":
                b = ["numeric", "integral"] if r.random() < .5 else []
            if b == [tr] and not any(not params(i.pat) for i in tr.impls):
                b = []
            cb[q] = set(b)
            bounds += [(q, x) for x in b]
        cx0 = Ctx(cb, [])
        if {"mk", "cmb"} & tr.kinds and "mk" in tr.kinds:
            # a value of the type can be made
            if not self.makeable2(p, cx0, tr):
                return
        im = Impl(p, ps, bounds)
        txt = ["impl %s %s%s =" % (tr.name, p.txt(), self.bound_txt(cb))]
        for kd, f in tr.fns:
            self.spent = 10
            pa = {"id": [("v", p)], "mk": [("k", U64)], "cmb": [("a", p), ("b", p)]}[kd]
            rt = U64 if kd == "id" else p
            cx = Ctx(cb, [(n, t, True) for n, t in pa])
            body = [obs(self.tag())]
            if kd == "id":
                body += self.id_body(tr, f, p, cx)
            else:
                if kd == "cmb" and r.random() < .5 and p.kind in ("struct",):
                    pass
                if kd == "cmb":
                    body.append(ret(var(r.choice("ab"), p)))
                else:
                    body.append(ret(self.make(p, cx, tr, f)))
            fname = "%s_%s%d" % (f, "i", len(tr.impls))
            F = Fn(fname, pa, rt, body)
            self.prog.lams.append(F)
            self.prog.impl(f, p, fname, ps, [(q, str(x)) for q, x in bounds])
            l = F.lit()
            if r.random() < .5:
                l[0] = "{" + ", ".join(n for n, _ in pa)
            txt += ["\t%s = %s" % (f, l[0])] + ["\t" + x for x in l[1:]]
        tr.impls.append(im)
        self.prog.types.append("\n".join(txt) + "\n;;\n")

    def makeable2(self, p, cx, tr):
        """mk can be written for p: parts that are parameters need the trait"""
        k = p.kind
        if k == "param":
            return any(b == "integral" or not isinstance(b, str) and "mk" in b.kinds for b in cx.bounds[p.name])
        if k == "union":
            return any(f is None or self.makeable2(f, cx, tr) for _, f in p.tags)
        return all(self.makeable2(q, cx, tr) for q in parts(p))

    def make(self, t, cx, tr, f):
        """a value of type t from the number k"""
        r = self.r
        k = t.kind
        kv = var("k", U64)
        if k == "param":
            b = cx.bounds[t.name]
            if "integral" in b:
                return E("(k : %s)" % t.txt(), 12, {"k": "cast", "y": t.txt(), "fy": "uint64", "a": kv.j}, t)
            q = next(x for x in b if not isinstance(x, str) and "mk" in x.kinds)
            g = next((g for kd, g in q.fns if kd == "mk"), None)
            if g is None:
                raise ValueError("no mk")
            return tcall(g, t, [bin_(r.choice("+^"), kv, ilit(r.randint(0, 9), U64))], t)
        if k == "int":
            return cast(kv, t)
        if k == "flt":
            return tcast(flit(r.randint(0, 50), t), t)
        if k == "bool":
            return paren(cmp_("<", kv, ilit(r.randint(1, 100), U64)))
        if k == "struct":
            return (struct_lit(t, [(i, self.make(y, cx, tr, f)) for i, (_, y) in enumerate(t.fields)]))
        if k == "tuple":
            e = tup_lit([self.make(y, cx, tr, f) for y in t.ts])
            e.t = t
            return e
        if k == "arr":
            return arr_lit(t, [self.make(t.t, cx, tr, f) for _ in range(t.n)])
        c = [(tag, y) for tag, y in t.tags if y is None or self.makeable2(y, cx, tr)]
        tag, y = r.choice(c)
        return un_lit(t, tag, self.make(y, cx, tr, f) if y else None)

    def id_body(self, tr, f, p, cx):
        r = self.r
        v = var("v", p)
        k = p.kind
        def sub(e):
            for q in self.traits:
                for kd, g in q.fns:
                    if kd == "id" and self.sat(q, e.t, cx.bounds) and (q is not tr or e.t.kind == "param" or e.t in [i.pat for i in tr.impls]):
                        return tcall(g, e.t, [e], U64)
            if self.integral(e.t, cx):
                return E("(%s : uint64)" % e.txt, 12, {"k": "cast", "y": "uint64", "fy": e.t.txt(), "a": e.j}, U64)
            if e.t.kind == "bool":
                return paren(b2u(e))
            return None
        if k in ("struct", "tuple", "arr"):
            acc = ilit(r.randint(0, 99), U64)
            es = [fld(v, i) for i in range(len(parts(p)))] if k != "arr" else [idx(v, ilit(i, INTW)) for i in range(p.n)]
            for e in es:
                s = sub(e)
                if s is not None:
                    acc = bin_("+", bin_("*", acc, ilit(r.randint(2, 9), U64)), s)
            return [ret(acc)]
        if k == "union":
            arms = []
            for i, (tag, y) in enumerate(p.tags):
                if y:
                    s = sub(var("x", y))
                    arms.append((pun(tag, pbind("x")), [ret(bin_("+", ilit(i * 100, U64), s) if s is not None else ilit(i * 100 + 7, U64))]))
                else:
                    arms.append((pun(tag), [ret(ilit(i * 100 + 3, U64))]))
            return [match(v, arms)]
        if k == "slice":
            s = sub(var("x", p.t))
            n = self.name("n")
            return [decl(n, ilit(r.randint(0, 9), U64)),
                    each(pbind("x"), v, [opasn(var(n, U64), "+", s)] if s is not None else [inc(var(n, U64))]), ret(var(n, U64))]
        if k == "ptr":
            s = sub(deref(v))
            return [ret(s if s is not None else ilit(r.randint(0, 99), U64))]
        s = sub(v) if k in ("int", "bool", "param") else None
        if s is not None and "tcall" not in str(s.j):
            return [ret(bin_("+", s, ilit(r.randint(0, 99), U64)))]
        return [ret(ilit(r.randint(0, 999), U64))]

    def eltrait(self):
        """a trait with an auxiliary type: what a container contains"""
        r = self.r
        self.el = None
        if r.random() < .3:
            return
        n = self.name("el")
        f = "get" + n
        self.el = (n, f, [])
        self.prog.traits[n] = f
        self.prog.types.append("trait %s @c -> @e =\n\t%s : (c : @c, i : int -> @e)\n;;\n" % (n, f))
        a, b = param("@a"), param("@b")
        pats = []
        for g in self.gts:
            if g.kind == "struct":
                y = g.at([a, b][:len(g.ps)])
                c = [(i, m) for i, (_, m) in enumerate(y.fields)]
                pats.append((y, r.choice(c)))
        pats.append((sl(a), None))
        for t in self.closed:
            if t.kind == "struct":
                pats.append((t, r.choice(list(enumerate(m for _, m in t.fields)))))
        r.shuffle(pats)
        for k, (y, c) in enumerate(pats[:r.randint(1, 3)]):
            cv, iv = var("c", y), var("i", INTW)
            if c is None:
                et, e = y.t, idx(cv, iv)
            else:
                et, e = c[1], fld(cv, c[0])
            F = Fn("%s_i%d" % (f, k), [("c", y), ("i", INTW)], et, [obs(self.tag()), ret(e)])
            self.prog.lams.append(F)
            self.prog.impl(f, y, F.name, params(y))
            self.prog.types.append("impl %s %s -> %s =\n\t%s = %s\n;;\n" % (n, y.txt(), et.txt(), f, "\n\t".join(F.lit())))
            self.el[2].append((y, et))

    def iterator(self):
        """a parameterised iterable"""
        r = self.r
        n = self.name("it")
        g = GT(n, "struct", ["@a"], [("v", param("@a")), ("n", INTW)] if r.random() < .5 else [("n", INTW), ("v", param("@a"))])
        t = g.at([param("@a")])
        iv, iN = [m for m, _ in g.members].index("v"), [m for m, _ in g.members].index("n")
        itp, vp = var("itp", ptr(t)), var("valp", ptr(param("@a")))
        nx = Fn(n + "nx", [("itp", ptr(t)), ("valp", ptr(param("@a")))], BOOL, [
            obs(self.tag()),
            if_(cmp_("<=", pfld(itp, iN), ilit(0, INTW)), [ret(blit(False))]),
            asn(deref(vp), pfld(itp, iv)),
            opasn(pfld(itp, iN), "-", ilit(1, INTW)),
            ret(blit(True))])
        fi = Fn(n + "fi", [("itp", ptr(t)), ("valp", ptr(param("@a")))], VOID, [obs(self.tag())])
        self.prog.types.append(g.text())
        l0, l1 = nx.lit(), fi.lit()
        if r.random() < .5:
            l0[0] = l1[0] = "{itp, valp"
        self.prog.types.append("impl iterable %s -> @a =\n\t__iternext__ = %s\n\t__iterfin__ = %s\n;;\n" % (
            t.txt(), "\n\t".join(l0), "\n\t".join(l1)))
        self.prog.lams += [nx, fi]
        self.prog.impl("__iternext__", t, nx.name, ["@a"])
        self.prog.impl("__iterfin__", t, fi.name, ["@a"])
        self.itg = g

    itg = None

    # ------------------------------------------------------ generic functions
    def add(self, f, bounds, args, rt, body, cost):
        self.prog.fns.append(Fn(f, args, rt, body, generic=True, traits=self.bound_txt(bounds)))
        self.prog.fns[-1].shared = True
        return self.prog.fns[-1]

    def btxt(self, b):
        return b if isinstance(b, str) else b.name

    def bound_txt(self, bounds):
        l = []
        for p in sorted(bounds):
            plain = sorted({self.btxt(b) for b in bounds[p] if not isinstance(b, tuple)})
            if "integral" in plain and "numeric" not in plain:
                plain.append("numeric")
            if plain:
                l.append("%s %s" % (",".join(plain), p))
            for b in bounds[p]:
                if isinstance(b, tuple):
                    l.append("%s %s -> %s" % (b[0], p, b[1].txt()))
        return " :: " + ", ".join(l) if l else ""

    def bounds(self, ps):
        r = self.r
        b = {}
        for p in ps:
            x = r.random()
            b[p] = {"integral"} if x < .4 else {"numeric"} if x < .5 and self.flts else {r.choice(self.traits)} if x < .85 else set()
            if x < .3 and r.random() < .3:
                b[p] = b[p] | {r.choice(self.traits)}
        return b

    def generic(self):
        r = self.r
        x = r.random()
        if x < .6:
            return self.g_free()
        k = r.choice(["map", "fold", "rec", "el", "iter", "apply", "swap", "poly", "compose"])
        return getattr(self, "g_" + k)()

    def g_free(self):
        """arguments of types over the parameters; a random body"""
        r = self.r
        ps = ["@a", "@b", "@c"][:r.choice((1, 1, 1, 2, 2, 3))]
        bounds = self.bounds(ps)
        leaf = [param(p) for p in ps]
        args = []
        for p in ps:
            y = param(p)
            args.append((self.name("a"), y if r.random() < .5 else self.cty(1, True, True, [y]) if r.random() < .5 else self.over(y, leaf)))
        for _ in range(r.randint(0, 2)):
            args.append((self.name("a"), self.cty(2, True, r.random() < .5, leaf)))
        seen = params(tup(*[t for _, t in args]))
        for p in ps:
            if p not in seen:
                args.append((self.name("a"), param(p)))
        r.shuffle(args)
        cx = Ctx(bounds, [(n, t, True) for n, t in args])
        for _ in range(20):
            rt = r.choice([t for _, t in args] + leaf + [self.cty(2, True, False, leaf), U64])
            if rt.kind not in ("fn",) and not has(rt, ("fn",)) and self.makeable(rt, cx):
                break
        else:
            return
        name = self.name("g")
        self.spent = 2
        body = [obs(self.tag())] if r.random() < .5 else []
        body += self.gstmts(cx, r.randint(1, 4))
        body.append(ret(self.gexpr(rt, cx, 3, True)))
        self.add(name, bounds, args, rt, body, self.spent)
        self.gfns.append(GFn(name, ps, bounds, args, rt, self.spent))

    def over(self, y, leaf):
        """a type with y in it"""
        r = self.r
        x = r.random()
        if x < .4:
            g = r.choice(self.gts)
            i = r.randrange(len(g.ps))
            return g.at([y if k == i else r.choice(leaf + self.tys) for k in range(len(g.ps))])
        return r.choice([sl(y), ptr(y), arr(y, r.randint(1, 3)), tup(y, r.choice(leaf + self.tys)), tup(self.scalar(), y)])

    def g_map(self):
        """over a parameterised union or struct, with a function"""
        c = [g for g in self.gts if g.kind == "union"]
        if not c:
            return
        r = self.r
        g = r.choice(c)
        a, b = param("@a"), param("@b")
        rest = self.tys[:1]
        src = g.at([a] + rest * (len(g.ps) - 1))
        dst = g.at([b] + rest * (len(g.ps) - 1))
        n, f, v = self.name("g"), "f", "v"
        arms = []
        for (tag, y), (_, z) in zip(src.tags, dst.tags):
            if y is None:
                arms.append((pun(tag), [ret(un_lit(dst, tag))]))
            elif y == a and z == b:
                arms.append((pun(tag, pbind("x")), [ret(un_lit(dst, tag, callv(var("f", fn([a], b)), [var("x", a)])))]))
            elif y == z:
                arms.append((pun(tag, pbind("x")), [ret(un_lit(dst, tag, var("x", y)))]))
            else:
                return
        args = [("v", src), ("f", fn([a], b))]
        self.add(n, {}, args, dst, [match(var("v", src), arms)], 3)
        self.gfns.append(GFn(n, ["@a", "@b"], {}, args, dst, 4))

    def g_fold(self):
        a, b = param("@a"), param("@b")
        n = self.name("g")
        ft = fn([b, a], b)
        s = sl(a) if self.r.random() < .5 else arr(a, 2)
        args = [("s", s), ("z", b), ("f", ft)]
        self.add(n, {}, args, b, [each(pbind("x"), var("s", s), [asn(var("z", b), callv(var("f", ft), [var("z", b), var("x", a)]))]), ret(var("z", b))], 8)
        self.gfns.append(GFn(n, ["@a", "@b"], {}, args, b, 8))

    def g_rec(self):
        """recursion (at the same types: a generic has one type in its own body)"""
        r = self.r
        a, b = param("@a"), param("@b")
        n = self.name("g")
        swap = False
        args = [("n", INTW), ("x", a), ("y", b)]
        bounds = {"@a": {"integral"}, "@b": {"integral"}}
        x, y, nv = var("x", a), var("y", b), var("n", INTW)
        x1 = bin_(r.choice("+*-"), x, glit(r.randint(1, 5), a))
        e = call(n, [bin_("-", nv, ilit(1, INTW)), y, x1], U64, {"@a": b, "@b": a}) if swap else \
            call(n, [bin_("-", nv, ilit(1, INTW)), x1, y], U64, {"@a": a, "@b": b})
        cu = lambda v: E("(%s : uint64)" % v.txt, 12, {"k": "cast", "y": "uint64", "fy": v.t.txt(), "a": v.j}, U64)
        self.add(n, bounds, args, U64, [if_(cmp_("<=", nv, ilit(0, INTW)), [ret(bin_("+", cu(x), bin_("*", cu(y), ilit(1000, U64))))]),
                                        obs(cu(x)), ret(e)], 0)
        self.recs.append(GFn(n, ["@a", "@b"], bounds, args, U64, 0))

    recs = ()

    def g_el(self):
        if not self.el or not self.el[2]:
            return
        c, e = param("@c"), param("@e")
        tn, f, _ = self.el
        n = self.name("g")
        bounds = {"@c": {(tn, e)}, "@e": {"integral"} if self.r.random() < .5 else set()}
        args = [("c", c)]
        g = lambda i: tcall(f, c, [var("c", c), ilit(i, INTW)], e)
        if bounds["@e"]:
            body = [decl("x", g(0), ty=self.r.random() < .5), ret(bin_("+", bin_("*", var("x", e), self.num(3, e)), g(1)))]
        else:
            body = [ret(g(1))]
        self.add(n, bounds, args, e, body, 5)
        self.els.append(GFn(n, ["@c", "@e"], bounds, args, e, 5))

    els = ()

    def g_iter(self):
        i, e = param("@i"), param("@e")
        n = self.name("g")
        k = self.r.choice(["last", "count", "sum"])
        bounds = {"@i": {("iterable", e)}, "@e": {"integral"} if k == "sum" else set()}
        args = [("it", i), ("z", e)]
        c = self.name("c")
        if k == "last":
            body = [eachit(pbind("x"), var("it", i), e, [asn(var("z", e), var("x", e))]), ret(var("z", e))]
            rt = e
        elif k == "sum":
            body = [eachit(pbind("x"), var("it", i), e, [opasn(var("z", e), "+", var("x", e))]), ret(var("z", e))]
            rt = e
        else:
            body = [decl(c, ilit(0, U64)), eachit(pbind("x"), var("it", i), e, [inc(var(c, U64))]), ret(var(c, U64))]
            rt = U64
        self.add(n, bounds, args, rt, body, 5)
        self.iters.append(GFn(n, ["@i", "@e"], bounds, args, rt, 5))

    def g_apply(self):
        """calls its function argument, and passes it on"""
        a, b = param("@a"), param("@b")
        n = self.name("g")
        ft = fn([a], b)
        args = [("f", ft), ("x", a)]
        body = [ret(callv(var("f", ft), [var("x", a)]))]
        self.add(n, {}, args, b, body, 3)
        self.gfns.append(GFn(n, ["@a", "@b"], {}, args, b, 4))

    def g_compose(self):
        a, b, c = param("@a"), param("@b"), param("@c")
        n = self.name("g")
        f, g = fn([a], b), fn([b], c)
        args = [("f", f), ("g", g), ("x", a)]
        self.add(n, {}, args, c, [ret(callv(var("g", g), [callv(var("f", f), [var("x", a)])]))], 5)
        self.gfns.append(GFn(n, ["@a", "@b", "@c"], {}, args, c, 6))

    def g_swap(self):
        a = param("@a")
        n = self.name("g")
        args = [("p", ptr(a)), ("q", ptr(a))]
        p, q = var("p", ptr(a)), var("q", ptr(a))
        body = [decl("t", deref(p), ty=self.r.random() < .5), asn(deref(p), deref(q)), asn(deref(q), var("t", a))] \
            if self.r.random() < .5 else [tasn([deref(p), deref(q)], tup_lit([deref(q), deref(p)]))]
        self.add(n, {}, args, VOID, body, 3)
        self.swaps.append(GFn(n, ["@a"], {}, args, VOID, 3))

    swaps = ()

    def g_poly(self):
        """calls an earlier generic at a type built from its own parameter"""
        c = [f for f in self.gfns if len(f.ps) == 1 and f.ret == param(f.ps[0]) and not f.bounds.get(f.ps[0])
             and all(t == param(f.ps[0]) for _, t in f.args)]
        a = param("@a")
        n = self.name("g")
        if not c:
            self.add(n, {}, [("x", a)], a, [ret(var("x", a))], 1)
            self.gfns.append(GFn(n, ["@a"], {}, [("x", a)], a, 1))
            return
        f = self.r.choice(c)
        y = self.over(a, [a])
        if has(y, ("slice", "ptr")):
            y = tup(a, self.scalar())
        cx = Ctx({}, [("x", a, True)])
        if not self.makeable(y, cx):
            return
        e = call(f.name, [self.gexpr(y, cx, 2) for _ in f.args], y, {f.ps[0]: y})
        self.add(n, {}, [("x", a)], y, [ret(e)], f.cost + 2)
        self.gfns.append(GFn(n, ["@a"], {}, [("x", a)], y, f.cost + 2))

    # ----------------------------------------------------------------- tests
    def inst(self, f):
        """closed types for the parameters of f"""
        r = self.r
        m = {}
        for p in f.ps:
            bs = f.bounds.get(p, ())
            c = []
            for _ in range(40):
                y = r.choice(self.tys + self.flts) if "numeric" in bs else r.choice(self.tys) if "integral" in bs else self.cty(r.choice((0, 1, 2, 2)))
                tr = [b for b in bs if isinstance(b, Trait)]
                if tr and r.random() < .7 and tr[0].impls:
                    i = r.choice(tr[0].impls)
                    q = {p2: self.cty(1) if r.random() < .5 else r.choice(self.tys) for p2 in i.ps}
                    for p2, b in i.bounds:
                        if isinstance(b, str):
                            q[p2] = r.choice(self.tys)
                    y = subst(i.pat, q)
                if all(self.sat(b, y, {}) for b in bs if not isinstance(b, tuple)) and "void" not in y.txt():
                    m[p] = y
                    break
            else:
                return None
        return m

    def callat(self, f, m, out):
        args = [self.newvar(subst(t, m), out) for _, t in f.args]
        rt = subst(f.ret, m)
        e = call(f.name, args, rt, m)
        if rt == VOID:
            out.append(expr(e))
            for a in args:
                out += self.show(deref(a))
            return
        n = self.name("r")
        d = decl(n, e, ty=self.r.random() < .6)
        out.append(d)
        out += self.show(var(n, rt))
        if rt.kind not in ("fn",) and self.r.random() < .3:
            # and as a value
            ft = fn([a.t for a in args], rt)
            h = self.name("h")
            out.append(decl(h, fnref(f.name, ft, m)))
            n = self.name("r")
            out.append(decl(n, callv(var(h, ft), args)))
            out += self.show(var(n, rt))

    def test(self, k):
        r = self.r
        out = []
        for _ in range(r.randint(2, 4)):
            x = r.random()
            pool = self.gfns
            if x < .1 and self.recs:
                f = r.choice(self.recs)
                m = {p: r.choice(self.tys) for p in f.ps}
                args = [ilit(r.randint(1, 5), INTW), self.newvar(m["@a"], out), self.newvar(m["@b"], out)]
                out.append(obs(call(f.name, args, U64, m)))
                continue
            if x < .2 and self.els:
                f = r.choice(self.els)
                y, et = r.choice(self.el[2])
                q = {p: r.choice(self.tys) if f.bounds["@e"] else self.cty(1) for p in params(y)}
                y, et = subst(y, q), subst(et, q)
                if f.bounds["@e"] and et.kind != "int":
                    continue
                if y.kind == "slice":
                    v = self.newvar(y, out, [self.value(y.t) for _ in range(3)])
                else:
                    v = self.newvar(y, out)
                n = self.name("r")
                out.append(decl(n, call(f.name, [v], et, {"@c": y, "@e": et})))
                out += self.show(var(n, et))
                continue
            if x < .35 and self.iters:
                f = r.choice(self.iters)
                et = r.choice(self.tys) if f.bounds["@e"] else self.cty(1)
                if r.random() < .5 and self.itg:
                    y = self.itg.at([et])
                    i = [p for p, _ in self.itg.members].index("n")
                    val = [None, None]
                    val[i] = r.randint(0, 3)
                    val[1 - i] = self.value(et)
                    v = self.newvar(y, out, tuple(val))
                else:
                    if has(et, ("fn",)):
                        continue
                    y = sl(et) if r.random() < .6 else arr(et, 2)
                    v = self.newvar(y, out)
                z = self.newvar(et, out)
                rt = subst(f.ret, {"@e": et})
                n = self.name("r")
                out.append(decl(n, call(f.name, [v, z], rt, {"@i": y, "@e": et})))
                out += self.show(var(n, rt))
                continue
            if x < .5:
                # a trait function itself
                tr = r.choice(self.traits)
                c = [(kd, g) for kd, g in tr.fns]
                kd, g = r.choice(c)
                m = self.inst(GFn("", ["@x"], {"@x": {tr}}, [], None, 0))
                if not m:
                    continue
                y = m["@x"]
                args = [self.newvar(a, out) for a in {"id": [y], "mk": [U64], "cmb": [y, y]}[kd]]
                rt = U64 if kd == "id" else y
                n = self.name("r")
                out.append(decl(n, tcall(g, y, args, rt)))
                out += self.show(var(n, rt))
                continue
            f = r.choice(pool + list(self.swaps))
            for _ in range(r.randint(1, 3)):
                m = self.inst(f)
                if m:
                    self.callat(f, m, out)
        return out
