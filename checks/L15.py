"""Variable numbers of arguments: what the callee finds, and how data is laid out."""
import os, struct as pystruct, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from myrast import *
from myrgen import Gen
from myrrun import compile_prog, run_test, helper

CODE = {"void": 1, "char": 3, "int8": 4, "int16": 5, "int": 6, "int32": 7, "int64": 8, "byte": 9, "uint8": 10,
        "uint16": 11, "uint": 12, "uint32": 13, "uint64": 14, "flt32": 15, "flt64": 16}
CHAR = T("flt", name="char")
FLTS = ["0.0", "1.0", "1.5", "0.25", "3.0", "1024.5", "0.0078125", "65536.0", "123456.75"]
FIXED = [INT["int8"], INT["uint64"], INT["int32"], INT["int16"], BOOL, FLT64, FLT32, STR]


def codes(s):
    return [ord(x) for x in s]


class G(Gen):
    def __init__(self, r):
        self.alias = 0
        super().__init__(r, r.randint(4, 9))

    def newtype(self, i):
        r = self.r
        x = r.random()
        nm = r.choice(("", "long_name_of_a_type_", "q" * r.choice((1, 30, 63, 64, 90, 127, 128, 140)))) if x < .3 else ""
        fnm = lambda p, k: p + ("%s%d" % (r.choice(("f", "member_", "z" * r.choice((2, 62, 63, 64, 126, 127, 128)))), k) if r.random() < .15 else "f%d" % k)
        x = r.random()
        if x < .4:
            t = struct("s%s%d" % (nm, i), [(fnm("", k), self.ty(1, True, True, True)) for k in range(r.choice((1, 2, 3, 4, 7, 12, 30)))])
        elif x < .75:
            n = r.choice((1, 2, 3, 5, 8, 20))
            t = union("u%s%d" % (nm, i), [("T%d_%d" % (i, k), self.ty(1, True, True, True) if r.random() < .6 else None) for k in range(n)])
        else:
            t = T("param", name="a%s%d" % (nm, i), t=self.ty(1, True, True, True))
        self.types.append(t)
        self.prog.types.append(t if t.kind != "param" else "type %s = %s\n" % (t.name, t.t.txt()))
        return t

    def scalar(self):
        r = self.r
        x = r.random()
        if x < .12:
            return BOOL
        if x < .2:
            return CHAR
        if x < .28:
            return r.choice((FLT32, FLT64))
        return INT[r.choice(INTNAMES)]

    def ty(self, d=2, ptrs=False, strs=False, slices=False):
        r = self.r
        x = r.random()
        if d > 0 and x < .06:
            return fn([self.scalar() for _ in range(r.randint(0, 3))], self.scalar())
        if d > 0 and x < .12:
            return ptr(r.choice((INT["uint8"], INT["byte"], INT["int8"], BOOL)))
        if x < .14 and d > 0:
            return arr(self.scalar(), r.choice((1, 7, 63, 64, 127, 128, 300)))
        return super().ty(d, False, strs, slices)

    def value(self, t):
        r = self.r
        if t.kind == "param":
            return self.value(t.t)
        if t.kind == "flt":
            if t.name == "char":
                return r.choice((0, 65, 127, 128, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff))
            return r.choice(FLTS)
        if t.kind == "fn":
            return None
        return super().value(t)

    def lit(self, t, v, pre):
        k = t.kind
        if k == "param":
            e = self.lit(t.t, v, pre)
            n = self.name("al")
            pre.append(S(["var %s : %s = %s" % (n, t.t.txt(), e.txt)], {}))
            return E("(%s : %s)" % (n, t.name), 12, {}, t)
        if k == "flt":
            return E("'\\u{%x}'" % v if t.name == "char" else v, 12, {}, t)
        if k == "fn":
            n = self.name("fn")
            ps = ", ".join("p%d : %s" % (i, a.txt()) for i, a in enumerate(t.args))
            z = {"flt": "0.0", "bool": "false"}.get(t.ret.kind, "0") if t.ret != CHAR else "'a'"
            pre.append(S(["var %s = {%s -> %s; -> %s}" % (n, ps, t.ret.txt(), z)], {}))
            return E(n, 12, {}, t)
        if k == "slice" and t != STR and not v:
            n = self.name("em")
            pre.append(S(["var %s : %s = [][:]" % (n, t.txt())], {}))
            return E(n, 12, {}, t)
        return super().lit(t, v, pre)

    # ------------------------------------------------- for the specification
    def jt(self, t):
        k = t.kind
        if k == "int" or k == "flt":
            return {"k": "a", "c": CODE[t.name]}
        if k == "bool":
            return {"k": "a", "c": 2}
        if k == "param":
            return {"k": "nm", "n": codes(t.name), "t": self.jt(t.t)}
        if k == "struct":
            return {"k": "nm", "n": codes(t.name), "t": {"k": "st", "ns": [codes(n) for n, _ in t.fields], "ts": [self.jt(f) for _, f in t.fields]}}
        if k == "union":
            return {"k": "nm", "n": codes(t.name), "t": {"k": "un", "ns": [codes(n) for n, _ in t.tags], "ts": [[self.jt(f)] if f else [] for _, f in t.tags]}}
        if k == "tuple":
            return {"k": "tup", "ts": [self.jt(f) for f in t.ts]}
        if k == "arr":
            return {"k": "arr", "n": t.n, "t": self.jt(t.t)}
        if k == "slice":
            return {"k": "sl", "t": self.jt(t.t)}
        if k == "ptr":
            return {"k": "ptr", "t": self.jt(t.t)}
        if k == "fn":
            return {"k": "fn", "ts": [self.jt(t.ret)] + [self.jt(a) for a in t.args]}

    def jv(self, t, v):
        k = t.kind
        if k == "param":
            return self.jv(t.t, v)
        if k == "int":
            return limbs(v, 64)
        if k == "bool":
            return limbs(int(v), 64)
        if k == "flt":
            if t.name == "char":
                return limbs(v, 64)
            b = pystruct.pack("<f", float(v)) if t.name == "flt32" else pystruct.pack("<d", float(v))
            return limbs(int.from_bytes(b, "little"), 64)
        if k == "struct":
            return [self.jv(f, x) for (_, f), x in zip(t.fields, v)]
        if k == "tuple":
            return [self.jv(f, x) for f, x in zip(t.ts, v)]
        if k == "arr":
            return [self.jv(t.t, x) for x in v]
        if k == "slice":
            return [self.jv(t.t, x) for x in v]
        if k == "union":
            i = [n for n, _ in t.tags].index(v[0])
            f = t.tags[i][1]
            return {"i": i + 1, "v": [self.jv(f, v[1])] if f else []}
        if k == "ptr":
            return limbs(self.jv(t.t, v[0])[0] & 255, 64)
        if k == "fn":
            return []

    def call(self):
        """a call with some fixed and some variable arguments"""
        r = self.r
        f = self.name("va")
        fixed = [r.choice(FIXED) for _ in range(r.choice((0, 0, 1, 2, 3, 5, 7, 9, 12)))]
        body, items, pre, args = [], [], [], []
        for i, t in enumerate(fixed):
            v = self.value(t)
            args.append(self.lit(t, v, pre).txt)
            if t == STR:
                body.append("obs(p%d.len)" % i)
                items.append({"w": "num", "x": limbs(len(v), 64)})
            elif t.kind == "flt":
                body.append("obs(((&p%d : uint%s#)# : uint64))" % (i, t.name[3:]))
                items.append({"w": "num", "x": self.jv(t, v)})
            elif t == BOOL:
                body.append("obs(p%d ? 1 : 0)" % i)
                items.append({"w": "num", "x": self.jv(t, v)})
            else:
                body.append("obs((p%d : uint64))" % i)
                items.append({"w": "num", "x": self.jv(t, v)})
        ret = r.choice(("void", "int", "(int64, int64, int64)"))
        body += ["var ap = std.vastart(&args)", "w_all(&ap)"]
        if ret != "void":
            body.append("-> 7" if ret == "int" else "-> (7, 8, 9)")
        self.prog.extra.append("const %s = {%s -> %s\n%s\n}\n" % (
            f, ", ".join(["p%d : %s" % (i, t.txt()) for i, t in enumerate(fixed)] + ["args : ..."]), ret, "\n".join("\t" + b for b in body)))
        n = r.choice((0, 1, 2, 3, 4, 6, 10))
        items.append({"w": "num", "x": limbs(n, 64)})
        for i in range(n):
            t = self.ty(r.choice((0, 1, 2, 3)), True, True, True)
            v = self.value(t)
            e = self.lit(t, v, pre)
            if t == STR and r.random() < .5 and e.txt.startswith('"'):
                args.append(e.txt)
            else:
                x = self.name("x")
                pre.append(S(["var %s : %s = %s" % (x, t.txt(), e.txt)], {}))
                args.append(x if r.random() < .8 else "(%s : %s)" % (x, t.txt()))
            items.append({"w": "val", "t": self.jt(t), "v": self.jv(t, v)})
        items.append({"w": "num", "x": limbs(0xe0e0, 64)})
        c = "%s(%s)" % (f, ", ".join(args))
        if ret == "void":
            pre.append(S([c], {}))
        elif ret == "int":
            pre.append(S(["obs((%s : uint64))" % c], {}))
            items.append({"w": "num", "x": limbs(7, 64)})
        else:
            q = self.name("q")
            pre.append(S(["var %s = %s" % (q, c)] + ["obs((%s.%d : uint64))" % (q, i) for i in range(3)], {}))
            items += [{"w": "num", "x": limbs(7 + i, 64)} for i in range(3)]
        return pre, items

    def layout(self):
        r = self.r
        t = self.ty(3, True, True, True)
        pre = []
        x = self.name("x")
        y = self.name("y")
        out = ["var %s : %s = %s" % (x, t.txt(), self.lit(t, self.value(t), pre).txt), "obs((sizeof(%s) : uint64))" % t.txt()]
        if t.kind == "struct":
            out += ["obs((&%s.%s : uint64) - (&%s : uint64))" % (x, n, x) for n, _ in t.fields]
        elif t.kind == "tuple":
            out += ["obs((&%s.%d : uint64) - (&%s : uint64))" % (x, i, x) for i in range(len(t.ts))]
        elif t.kind == "param":
            # no offsets through a name of something else
            t = T("param", name=t.name, t=arr(t.t, 1))
        return pre + [S(out, {})], [{"w": "lay", "t": self.jt(t)}]

    def test(self):
        st, items = [], []
        for _ in range(self.r.randint(1, 3)):
            a, b = self.call()
            st += a
            items += b
        for _ in range(2):
            a, b = self.layout()
            st += a
            items += b
        return st, items


def check(c):
    c.build()
    with open(os.path.join(vlib.VERIF, "drivers", "walk.myr")) as f:
        walk = f.read().replace("extern const obs\t: (x : uint64 -> void)\n", "")
    gens = []
    for k in range(c.n(60, 600)):
        g = G(c.rng)
        g.prog.libs = True
        g.rows = []
        g.prog.extra = []
        for _ in range(12):
            st, items = g.test()
            g.prog.tests.append(st)
            g.rows.append(items)
        # types come before the functions of the tests
        g.prog.extra = ["use std\nextern const obs : (x : uint64 -> void)\n" + walk] + g.prog.extra
        gens.append(g)
    helper(c)

    def one(k):
        g = gens[k]
        exe, err = compile_prog(c, g.prog, "p%d" % k, text=text(g.prog))
        if exe is None:
            for i in range(len(g.rows)):
                x, e = compile_prog(c, g.prog, "p%d_%d" % (k, i), text=text(g.prog, i))
                if x is None:
                    return [("a valid program is not compiled (program %d test %d)" % (k, i), e[:1500] + "\n" + text(g.prog, i)[:60000])], []
            return [("a valid program is not compiled (program %d)" % k, err[:1500] + "\n" + text(g.prog)[:60000])], []
        return [], [run_test(c, exe, i) for i in range(len(g.rows))]
    rows, ptrs = [], []
    with ThreadPoolExecutor(8) as ex:
        for k, (bad, res) in enumerate(ex.map(one, range(len(gens)))):
            for w, d in bad:
                c.violation(w, d)
            for i, (end, out) in enumerate(res):
                rows.append({"items": gens[k].rows[i], "out": out, "end": end})
                ptrs.append((k, i))
    if not rows:
        return
    c.sample({"items": str(rows[7]["items"])[:800], "reported": rows[7]["out"][:40]})
    bad = c.traces_ok("Variadic", rows, xss="256m")
    if bad:
        k, i = ptrs[bad["t"] - 1]
        c.violation("a function with variable arguments (or the layout of a type) reports what it should not: program %d test %d, report %s" % (k, i, bad["l"]),
                    "end: %s\nreported from there: %s\nspecification: %s\n\nwhole program:\n%s" % (
                        rows[bad["t"] - 1]["end"], bad["row"]["out"][max(0, bad["l"] - 6):bad["l"] + 6], bad["state"][:2500], text(gens[k].prog, i)[:60000]))


def text(p, only=None):
    return p.text(only).replace("extern const obs : (x : uint64 -> void)\n", "", 1)


vlib.main(check, "L15")
