"""Exhaustiveness of match statements: spec/Exhaust.tla decides which programs
have to be accepted and which rejected; the compiler says what it does."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from myrast import *
from myrgen import Gen

W = ("w",)


class G4(Gen):
    """patterns as Python trees: ("w",) ("bind",n) ("lit",v) ("bool",b) ("str",s)
    ("seq",{i:p}) ("un",tag,p|None) ("ptr",p) ("or",[p])"""

    def size(self, t):
        k = t.kind
        if k == "int" or k == "slice":
            return 3
        if k == "bool":
            return 2
        if k in ("struct", "tuple", "arr"):
            n = 1
            for f in self.parts(t):
                n *= self.size(f)
            return n
        if k == "union":
            return sum(self.size(f) if f else 1 for _, f in t.tags)
        if k == "ptr":
            return self.size(t.t)
        return 1

    def parts(self, t):
        return [f for _, f in t.fields] if t.kind == "struct" else t.ts if t.kind == "tuple" else [t.t] * t.n

    def alts(self, t):
        """a covering of t by patterns with wildcards below the head"""
        r = self.r
        k = t.kind
        if k == "int":
            return [("lit", v) for v in r.sample(self.ints(t.name), r.choice((1, 1, 2)))] + [W]
        if k == "slice":
            return [("str", v) for v in r.sample(self.STRS, r.choice((1, 1, 2)))] + [W]
        if k == "bool":
            return [("bool", True), ("bool", False)] if r.random() < .8 else [("bool", r.random() < .5), W]
        if k == "union":
            ps = [("un", tag, W if f else None) for tag, f in t.tags]
            if r.random() < .25:
                ps = r.sample(ps, r.randint(1, len(ps))) + [W]
            return ps
        if k == "ptr":
            return [("ptr", W)]
        if k in ("struct", "tuple", "arr"):
            return [("seq", {i: W for i in range(len(self.parts(t)))})]
        return [W]

    def holes(self, p, t, path=()):
        k = p[0]
        if k == "w":
            return [(path, t)]
        if k == "seq":
            fs = self.parts(t)
            return [h for i, q in p[1].items() for h in self.holes(q, fs[i], path + (i,))]
        if k == "un" and p[2] is not None:
            return self.holes(p[2], dict(t.tags)[p[1]], path + ("u",))
        if k == "ptr":
            return self.holes(p[1], t.t, path + ("u",))
        return []

    def put(self, p, path, q):
        if not path:
            return q
        if p[0] == "seq":
            d = dict(p[1])
            d[path[0]] = self.put(d[path[0]], path[1:], q)
            return ("seq", d)
        if p[0] == "un":
            return ("un", p[1], self.put(p[2], path[1:], q))
        return ("ptr", self.put(p[1], path[1:], q))

    def cover(self, t, n):
        ps = [W]
        for _ in range(n * 2):
            if len(ps) >= n:
                break
            i = self.r.randrange(len(ps))
            h = self.holes(ps[i], t)
            if not h:
                continue
            path, ht = self.r.choice(h)
            if ht.kind == "void":
                continue
            ps[i:i + 1] = [self.put(ps[i], path, a) for a in self.alts(ht)]
        return ps

    def mutate(self, ps, t):
        r = self.r
        x = r.random()
        ps = list(ps)
        if x < .4 and len(ps) > 1:
            del ps[r.randrange(len(ps))]
        elif x < .65:
            # make a pattern more specific
            i = r.randrange(len(ps))
            h = [q for q in self.holes(ps[i], t) if q[1].kind not in ("void",)]
            if h:
                path, ht = r.choice(h)
                ps[i] = self.put(ps[i], path, r.choice(self.alts(ht)))
        elif x < .85 and len(ps) > 1:
            r.shuffle(ps)
        elif len(ps) > 2:
            i = r.randrange(len(ps) - 1)
            ps[i:i + 2] = [("or", [ps[i], ps[i + 1]])] if W not in ps[i:i + 2] else ps[i:i + 2]
        return ps

    def jty(self, t):
        k = t.kind
        if k == "int" or k == "slice":
            return {"k": "lit", "c": t.txt(), "n": 1 << INTS[t.name][0] if k == "int" and INTS[t.name][0] == 8 else 0}
        if k == "bool":
            return {"k": "bool"}
        if k in ("struct", "tuple", "arr"):
            return {"k": "seq", "ts": [self.jty(f) for f in self.parts(t)]}
        if k == "union":
            return {"k": "un", "tags": [[g, [self.jty(f)] if f else []] for g, f in t.tags]}
        if k == "ptr":
            return {"k": "seq", "ts": [self.jty(t.t)]}
        return {"k": "unit"}

    def pj(self, p, t, lits):
        """(text, json)"""
        k = p[0]
        r = self.r
        if k == "w":
            if t.kind == "struct" and r.random() < .05:
                return "[.%s=_]" % t.fields[0][0], {"k": "wild"}
            return "_", {"k": "wild"}
        if k == "lit":
            s = lits.setdefault(t.txt(), [])
            if str(p[1]) not in s:
                s.append(str(p[1]))
            return ilit(p[1], t).txt, {"k": "lit", "v": str(p[1])}
        if k == "str":
            s = lits.setdefault(t.txt(), [])
            if p[1].hex() not in s:
                s.append(p[1].hex())
            return esc(p[1]), {"k": "lit", "v": p[1].hex()}
        if k == "bool":
            return ("true" if p[1] else "false"), {"k": "bool", "v": int(p[1])}
        if k == "seq":
            fs = self.parts(t)
            qs = {i: self.pj(q, fs[i], lits) for i, q in p[1].items()}
            j = {"k": "seq", "ps": [[i + 1, q[1]] for i, q in sorted(qs.items())]}
            if t.kind == "tuple":
                return "(%s%s)" % (", ".join(qs[i][0] for i in range(len(fs))), "," if len(fs) == 1 else ""), j
            if t.kind == "arr":
                return "[%s]" % ", ".join(qs[i][0] for i in range(len(fs))), j
            given = [i for i in qs if qs[i][1]["k"] != "wild" or r.random() < .4] or [0]
            return "[%s]" % ", ".join(".%s=%s" % (t.fields[i][0], qs[i][0]) for i in given), j
        if k == "un":
            if p[2] is None:
                return "`%s" % p[1], {"k": "un", "t": p[1], "p": []}
            x, j = self.pj(p[2], dict(t.tags)[p[1]], lits)
            return "`%s %s" % (p[1], "(%s)" % x if j["k"] == "or" else x), {"k": "un", "t": p[1], "p": [j]}
        if k == "ptr":
            x, j = self.pj(p[1], t.t, lits)
            return ("& " if x.startswith("&") else "&") + ("(%s)" % x if j["k"] == "or" else x), {"k": "seq", "ps": [[1, j]]}
        if k == "or":
            qs = [self.pj(q, t, lits) for q in p[1]]
            return " || ".join(q[0] for q in qs), {"k": "or", "ps": [q[1] for q in qs]}


def bytecase(g):
    """all values of a byte, or all but one or two, listed"""
    r = g.r
    b = INT[r.choice(("byte", "uint8", "byte", "int8"))]
    vs = list(range(256)) if b.name != "int8" else list(range(-127, 128))
    r.shuffle(vs)
    x = r.random()
    if x < .4:
        vs = vs[r.choice((1, 1, 2)):]
    elif x < .5 and 255 in vs:
        vs.remove(255)
    elif x < .6:
        vs.remove(0)
    elif x < .7:
        vs = vs[:-1] + [vs[0]]
    ps = [("lit", v) for v in vs]
    if r.random() < .5:
        n = r.choice((2, 3, 16, 128))
        ps = [ps[i] if len(ps[i:i + n]) == 1 else ("or", ps[i:i + n]) for i in range(0, len(ps), n)]
    if r.random() < .1:
        ps.append(W)
    x = r.random()
    if x < .5:
        t = b
    elif x < .65:
        t, ps = tup(b, BOOL), [("seq", {0: q, 1: W}) for q in ps]
    elif x < .8:
        t, ps = ptr(b), [("ptr", q) for q in ps]
    else:
        t = union("By", [("Aa", None), ("Bb", b), ("Cc", VOID)])
        g.types.append(t)
        ps = [("un", "Bb", q) for q in ps] + [("un", "Aa", None), ("un", "Cc", W)][:r.choice((1, 2, 2, 2))]
    return t, ps


def case(rng, byte=False):
    g = G4(rng, ntypes=3)
    r = g.r
    for _ in range(50):
        t = g.ty(r.choice((1, 2, 2, 3)), ptrs=True, strs=True)
        if r.random() < .05:
            t = VOID
        if g.size(t) <= 250 and (t.kind not in ("int", "slice") or r.random() < .2):
            break
    else:
        t = tup(BOOL, INT["int"])
    ps = g.cover(t, r.choice((1, 2, 3, 4, 5, 6, 8)))
    if r.random() < .6:
        for _ in range(r.choice((1, 1, 1, 2))):
            ps = g.mutate(ps, t)
    if byte:
        t, ps = bytecase(g)
    lits = {}
    ts = set()

    def walk(x):
        if x.kind in ("int", "slice"):
            lits.setdefault(x.txt(), [])
        for f in (g.parts(x) if x.kind in ("struct", "tuple", "arr") else [f for _, f in x.tags if f] if x.kind == "union"
                  else [x.t] if x.kind == "ptr" else []):
            walk(f)
    walk(t)
    qs = [g.pj(p, t, lits) for p in ps]
    # TLC enumerates the domain: keep it small
    src = "".join(tydecl(x) for x in g.types)
    src += "const f = {v : %s -> int\n\tmatch v\n%s\t;;\n\t-> 0\n}\nconst main = {\n\tvar p : (v : %s -> int)\n\tp = f\n}\n" % (
        t.txt(), "".join("\t| %s:\t-> %d\n" % (q[0], i + 1) for i, q in enumerate(qs)), t.txt())
    return {"ty": g.jty(t), "lits": lits, "pats": [q[1] for q in qs], "got": None}, src


def compile_all(c, srcs, libs=False):
    """accept / reject / crash for each text"""
    d = c.path("cases")
    os.makedirs(d, exist_ok=True)

    def one(i):
        f = os.path.join(d, "c%d.myr" % i)
        with open(f, "w") as fh:
            fh.write(srcs[i])
        rc, out = c.mc(f, incs=libs, timeout=30)
        obj = os.path.exists(f[:-4] + ".o")
        os.unlink(f)
        if obj:
            os.unlink(f[:-4] + ".o")
        if rc == 0 and obj:
            return "accept", out
        if rc != 0 and rc != "timeout" and rc > 0 and not obj and out.strip():
            return "reject", out
        return "crash status %s%s" % (rc, " object written" if obj else ""), out
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(srcs))))


def check(c):
    c.build(libs=False)
    cases = [case(c.rng) for _ in range(c.n(3000, 60000))]
    cases += [case(c.rng, True) for _ in range(c.n(60, 600))]
    got = compile_all(c, [s for _, s in cases])
    stat = {}
    for (row, src), (g, out) in zip(cases, got):
        row["got"] = g
        stat[g] = stat.get(g, 0) + 1
        if "nonexhaustive" not in out.decode("utf8", "replace") and "matched by" not in out.decode("utf8", "replace") and g == "reject":
            stat["other " + out.decode("utf8", "replace").strip().split(":")[-1][:60]] = stat.get("other " + out.decode("utf8", "replace").strip().split(":")[-1][:60], 0) + 1
    c.note(stat)
    c.extra["verdicts"] = {k: v for k, v in stat.items()}
    r = c.traces_ok("Exhaust", [row for row, _ in cases], xss="64m")
    c.sample({"source": cases[0][1], "verdict": got[0][0]})
    if r:
        i = r["t"] - 1
        c.violation("the compiler's verdict is %s" % got[i][0], "source:\n%s\ncompiler: %s\nspecification: %s" % (
            cases[i][1], got[i][1].decode("utf8", "replace"), r["state"]))


if __name__ == "__main__":
    vlib.main(check, "L04")
