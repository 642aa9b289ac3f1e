"""Use of unassigned variables and functions that run off their end:
spec/DefAssign.tla decides which functions have to be rejected."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from L04 import compile_all

# scalar types: name -> (opaque value, has arithmetic)
TYS = {"int": ("ei()", True), "byte": ("eb()", True), "int64": ("el()", True), "bool": ("c()", False),
       "flt64": ("ef()", True), "flt32": ("eh()", True), "int#": ("ep()", False), "char": ("ec()", True), "num": ("en()", True)}
C = {"k": "c"}


class G:
    def __init__(self, rng):
        self.r = rng
        self.vars = []      # (type,) of every variable declared so far
        self.nlab = 0
        self.seen = set()   # assigned somewhere above in the text
        self.nname = 0

    def declare(self, t):
        self.vars.append(t)
        return len(self.vars) - 1

    def asn(self, v, e):
        self.seen.add(v)
        return {"k": "asn", "v": v, "e": e}

    def n(self, v):
        return "v%d" % v

    # -------------------------------------------------- expressions: (text, json, reads, writes)
    def atom(self, t, sc, budget):
        """an expression of type t"""
        r = self.r
        vs = [v for v in sc if self.vars[v] == t]
        vs = [v for v in vs if v in self.seen] if r.random() < budget["careful"] else vs
        if vs and r.random() < budget["read"]:
            v = r.choice(vs)
            return self.n(v), {"k": "rd", "v": v}, {v}, set()
        return TYS[t][0], C, set(), set()

    def seq(self, parts):
        """parts evaluated in the same expression: the compiler may read plain
        variables after it has done the assignments of the other operands (a
        known finding of L05), so a variable written in one is not read in another"""
        for i, p in enumerate(parts):
            for j, q in enumerate(parts):
                if i != j and p[3] & (q[2] | q[3]):
                    return False
        return True

    def expr(self, t, sc, b, d=2):
        r = self.r
        x = r.random()
        vs = [v for v in sc if self.vars[v] == t]
        if d == 0 or x < .35:
            return self.atom(t, sc, b)
        if t == "bool":
            return self.cond(sc, b, d)
        if x < .5 and TYS[t][1]:
            for _ in range(5):
                ps = [self.expr(t, sc, b, d - 1) for _ in range(2)]
                if self.seq(ps):
                    return ("(%s %s %s)" % (ps[0][0], r.choice("+-*"), ps[1][0]), {"k": "op", "es": [p[1] for p in ps]},
                            ps[0][2] | ps[1][2], ps[0][3] | ps[1][3])
        if x < .6 and vs:
            v = r.choice(vs)
            e = self.expr(t, sc, b, d - 1)
            if v not in e[3]:
                return "(%s = %s)" % (self.n(v), e[0]), self.asn(v, e[1]), e[2], e[3] | {v}
        if x < .7:
            c = self.cond(sc, b, d - 1)
            a1, a2 = self.expr(t, sc, b, d - 1), self.expr(t, sc, b, d - 1)
            return ("(%s ? %s : %s)" % (c[0], a1[0], a2[0]), {"k": "tern", "c": c[1], "a": a1[1], "b": a2[1]},
                    c[2] | a1[2] | a2[2], c[3] | a1[3] | a2[3])
        if x < .8:
            # arguments of a call
            for _ in range(5):
                ts = [r.choice(b["tys"]) for _ in range(r.randint(1, 3))]
                ps = [self.expr(u, sc, b, d - 1) for u in ts]
                if self.seq(ps):
                    return ("get_%s(%s)" % (self.tyname(t), ", ".join(p[0] for p in ps)), {"k": "op", "es": [p[1] for p in ps]},
                            set().union(*(p[2] for p in ps)), set().union(*(p[3] for p in ps)))
        if t == "int" and x < .9:
            f = [v for v in sc if self.vars[v] == "int#" and (v in self.seen or r.random() > b["careful"])]
            if f:
                v = r.choice(f)
                return "%s#" % self.n(v), {"k": "rd", "v": v}, {v}, set()
        if t == "int#" and x < .9:
            f = [v for v in sc if self.vars[v] == "int"]
            if f:
                v = r.choice(f)
                return "&%s" % self.n(v), {"k": "addr"}, set(), set()
        return self.atom(t, sc, b)

    def tyname(self, t):
        return {"int#": "p"}.get(t, t)

    def cond(self, sc, b, d=2):
        r = self.r
        x = r.random()
        if d == 0 or x < .35:
            return self.atom("bool", sc, b)
        if x < .6:
            a1, a2 = self.cond(sc, b, d - 1), self.cond(sc, b, d - 1)
            op = r.choice(("&&", "||"))
            return ("(%s %s %s)" % (a1[0], op, a2[0]), {"k": "and" if op == "&&" else "or", "a": a1[1], "b": a2[1]},
                    a1[2] | a2[2], a1[3] | a2[3])
        if x < .7:
            a = self.cond(sc, b, d - 1)
            return "!%s" % a[0], {"k": "not", "a": a[1]}, a[2], a[3]
        t = r.choice([u for u in b["tys"] if TYS[u][1]] or ["int"])
        for _ in range(5):
            ps = [self.expr(t, sc, b, d - 1) for _ in range(2)]
            if self.seq(ps):
                return ("(%s %s %s)" % (ps[0][0], r.choice(("==", "!=", "<", ">=")), ps[1][0]),
                        {"k": "op", "es": [p[1] for p in ps]}, ps[0][2] | ps[1][2], ps[0][3] | ps[1][3])
        return self.atom("bool", sc, b)

    # -------------------------------------------------- statements
    def body(self, sc, b, d, loop, labels, ind, n=None, top=False):
        """(lines, json list)"""
        r = self.r
        sc = list(sc)
        lines, js = [], []
        tab = "\t" * ind
        mine = []

        def add(l, j):
            lines.extend(l if isinstance(l, list) else [tab + l])
            js.append(j)
        # the variables of a block are declared first: no jump passes a declaration
        for _ in range(r.choice((2, 3, 4)) if top else r.choice((0, 0, 0, 1, 2))):
            t = r.choice(b["tys"])
            x = r.random()
            if x < .7:
                v = self.declare(t)
                add("var %s : %s" % (self.n(v), t), {"k": "decl", "v": v})
            else:
                e = self.expr(t, sc, b)
                v = self.declare(t)
                add("var %s : %s = %s" % (self.n(v), t, e[0]), {"k": "decl", "v": v})
                js.append({"k": "e", "e": self.asn(v, e[1])})
            sc.append(v)
        n = n if n is not None else r.choice((1, 1, 2, 2, 3)) + (2 if top else 0)
        # labels of this block: jumped to from here and from blocks inside
        for _ in range(r.choice((0, 0, 0, 0, 1)) if b["goto"] else 0):
            self.nlab += 1
            mine.append(("l%d" % self.nlab, r.randrange(n + 1)))
        labels = labels + [m[0] for m in mine]
        for i in range(n):
            for m, k in mine:
                if k == i:
                    add(":" + m, {"k": "label", "l": m})
            self.stmt(add, sc, b, d, loop, labels, ind, tab)
        for m, k in mine:
            if k == n:
                add(":" + m, {"k": "label", "l": m})
        return lines, js

    def retstmt(self, sc, b):
        if b["res"]:
            e = self.expr(b["res"], sc, b)
            return "-> " + e[0], {"k": "ret", "e": e[1]}
        return "-> void", {"k": "ret", "e": C}

    def stmt(self, add, sc, b, d, loop, labels, ind, tab):
        r = self.r
        x = r.random()
        if not sc:
            x = max(x, .35)
        if x < .2:
            v = r.choice(sc)
            t = self.vars[v]
            e = self.expr(t, sc, b)
            add("%s = %s" % (self.n(v), e[0]), {"k": "e", "e": self.asn(v, e[1])})
        elif x < .25:
            vs = [v for v in sc if TYS[self.vars[v]][1] and (v in self.seen or r.random() > b["careful"])]
            if vs:
                v = r.choice(vs)
                if r.random() < .5 and not self.vars[v].startswith("flt"):
                    add("%s%s" % (self.n(v), r.choice(("++", "--"))), {"k": "e", "e": {"k": "inc", "v": v}})
                else:
                    e = self.expr(self.vars[v], sc, b)
                    if v not in e[3]:
                        add("%s %s= %s" % (self.n(v), r.choice("+-*"), e[0]), {"k": "e", "e": {"k": "upd", "v": v, "e": e[1]}})
        elif x < .33:
            t = r.choice(b["tys"])
            e = self.expr(t, sc, b)
            add("use_%s(%s)" % (self.tyname(t), e[0]), {"k": "e", "e": e[1]})
        elif x < .35:
            # an aggregate takes the values of scalars; a closure captures them
            v = r.choice([w for w in sc if w in self.seen] or sc)
            self.nname += 1
            if r.random() < .5:
                add("var t%d = (%s, 1)" % (self.nname, self.n(v)), {"k": "e", "e": {"k": "rd", "v": v}})
            else:
                add(["%svar k%d = {" % (tab, self.nname), "%s\tuse_%s(%s)" % (tab, self.tyname(self.vars[v]), self.n(v)), tab + "}",
                     "%sk%d()" % (tab, self.nname)], {"k": "e", "e": {"k": "rd", "v": v}})
        elif x < .60 and d > 0:
            c = self.cond(sc, b)
            al, aj = self.body(sc, b, d - 1, loop, labels, ind + 1)
            ls = [tab + "if " + c[0]] + al
            top = cur = {"k": "if", "c": c[1], "a": aj, "b": []}
            for _ in range(r.choice((0, 0, 0, 1, 2))):
                c2 = self.cond(sc, b)
                al, aj = self.body(sc, b, d - 1, loop, labels, ind + 1)
                ls += [tab + "elif " + c2[0]] + al
                nxt = {"k": "if", "c": c2[1], "a": aj, "b": []}
                cur["b"] = [nxt]
                cur = nxt
            if r.random() < .6:
                bl, bj = self.body(sc, b, d - 1, loop, labels, ind + 1)
                ls += [tab + "else"] + bl
                cur["b"] = bj
            add(ls + [tab + ";;"], top)
        elif x < .68 and d > 0:
            c = self.cond(sc, b)
            bl, bj = self.body(sc, b, d - 1, True, labels, ind + 1)
            if r.random() < .6:
                add([tab + "while " + c[0]] + bl + [tab + ";;"], {"k": "loop", "c": c[1], "body": bj, "step": []})
            else:
                v = self.declare("int")
                e = self.expr("int", sc, b)
                st = self.expr("int", sc, b)
                c = self.cond(sc + [v], b)
                bl, bj = self.body(sc + [v], b, d - 1, True, labels, ind + 1)
                add([tab + "for var %s = %s; %s; %s = %s" % (self.n(v), e[0], c[0], self.n(v), st[0])] + bl + [tab + ";;"],
                    {"k": "blk", "body": [{"k": "e", "e": self.asn(v, e[1])},
                                          {"k": "loop", "c": c[1], "body": bj,
                                           "step": [{"k": "e", "e": self.asn(v, st[1])}]}]})
        elif x < .73 and d > 0:
            v = self.declare("byte")
            e = ("es()", C)
            bl, bj = self.body(sc + [v], b, d - 1, True, labels, ind + 1)
            add([tab + "for %s : %s" % (self.n(v), e[0])] + bl + [tab + ";;"],
                {"k": "blk", "body": [{"k": "e", "e": e[1]},
                                      {"k": "loop", "c": C, "body": [{"k": "e", "e": self.asn(v, C)}] + bj, "step": []}]})
        elif x < .83 and d > 0:
            self.match(add, sc, b, d, loop, labels, ind, tab)
        elif x < .87 and loop:
            k = r.choice(("break", "continue"))
            add(k, {"k": "brk" if k == "break" else "cnt"})
        elif x < .90 and labels:
            l = r.choice(labels)
            add("goto " + l, {"k": "goto", "l": l})
        elif x < .94:
            add(*self.retstmt(sc, b))
        elif x < .96:
            e = self.expr("int", sc, b)
            add("die(%s)" % e[0], {"k": "die", "e": e[1]})
        elif sc:
            v = r.choice(sc)
            e = self.expr(self.vars[v], sc, b)
            add("%s = %s" % (self.n(v), e[0]), {"k": "e", "e": self.asn(v, e[1])})

    def match(self, add, sc, b, d, loop, labels, ind, tab):
        r = self.r
        x = r.random()
        arms = []
        if x < .4:
            e = self.expr("int", sc, b)
            pats = r.sample(["1", "2", "3"], r.randint(1, 3)) + ["_"]
            names = [None] * len(pats)
        elif x < .6:
            e = self.cond(sc, b)
            pats = ["true", "false"] if r.random() < .5 else ["false", "_"]
            names = [None] * len(pats)
        elif x < .8:
            e = (r.choice(("eu()",)), C)
            v = self.declare("int")
            pats = ["`A %s" % self.n(v), "`B", "`D _"]
            names = [v, None, None]
        else:
            for _ in range(20):
                ps = [self.expr("int", sc, b), self.cond(sc, b)]
                if self.seq(ps):
                    break
            else:
                ps = [("1", C), ("c()", C)]
            e = ("(%s, %s)" % (ps[0][0], ps[1][0]), {"k": "op", "es": [p[1] for p in ps]})
            v = self.declare("int")
            w = self.declare("int")
            pats = ["(%s, true)" % self.n(v), "(7, false)", "(%s, _)" % self.n(w)]
            names = [v, None, w]
        ls = [tab + "match " + e[0]]
        for p, v in zip(pats, names):
            bl, bj = self.body(sc + ([v] if v is not None else []), b, d - 1, loop, labels, ind + 1)
            ls += [tab + "| %s:" % p] + bl
            arms.append(([{"k": "e", "e": self.asn(v, C)}] if v is not None else []) + bj)
        add(ls + [tab + ";;"], {"k": "match", "e": e[1], "arms": arms})


def prelude():
    s = "type num = uint16\ntype un = union\n\t`A int\n\t`B\n\t`D bool\n;;\nextern const eu : (-> un)\nextern const c : (-> bool)\n"
    s += "extern $noret const die : (a : int -> void)\n"
    for t, (e, _) in TYS.items():
        if t != "bool":
            s += "extern const %s : (-> %s)\n" % (e[:-2], t)
    return s + "extern const es : (-> byte[:])\n"


def case(rng):
    g = G(rng)
    r = rng
    tys = r.sample(sorted(TYS), r.choice((1, 2, 2, 3)))
    b = {"tys": tys, "read": r.choice((.3, .5, .8)), "careful": r.choice((0, .8, .9, .95, .98, 1, 1)), "goto": r.random() < .4,
         "res": r.choice((None, None, r.choice(sorted(TYS)), r.choice(tys)))}
    lines, js = g.body([], b, r.choice((1, 2, 2, 3)), False, [], 1, top=True)
    # (a function without any return is one without a result)
    if b["res"] and (r.random() < .8 or not any(x.strip().startswith("-> ") for x in lines)) or not b["res"] and r.random() < .1:
        sc = [i["v"] for i in js if i["k"] == "decl"]
        l, j = g.retstmt(sc, b)
        lines.append("\t" + l)
        js.append(j)
    text = "\n".join(lines) + "\n"
    src = prelude()
    # the functions used by their type names
    src = src.replace("extern $noret const die : (a : int -> void)\n", "extern $noret const die : (a : int -> void)\n")
    import re
    ext = set()
    for m in re.finditer(r"\b(get_|use_)(int8|int16|int32|int64|int|byte|flt64|flt32|bool|num|char|p)\(", text):
        ext.add((m.group(1), m.group(2)))
    full = {"p": "int#"}
    for k, t in sorted(ext):
        src += "extern const %s%s : (a : %s -> void)\n" % (k, t, full.get(t, t)) if k == "use_" else \
            "extern const %s%s : (a : ... -> %s)\n" % (k, t, full.get(t, t))
    res = b["res"] or "void"
    kind = r.choice(("fn", "fn", "generic", "nested", "impl"))
    if kind == "fn":
        src += "const f = {-> %s\n%s}\nconst main = {\n\tvar p : (-> %s) = f\n\tp()\n}\n" % (res, text, res)
    elif kind == "generic":
        src += "generic f = {a : @t -> %s\n%s}\nconst main = {\n\tf(3)\n}\n" % (res, text)
    elif kind == "nested":
        src += "const main = {\n\tvar f = {-> %s\n%s\t}\n\tf()\n}\n" % (res, text)
    else:
        src += "trait tr @a =\n\tf : (x : @a -> %s)\n;;\nimpl tr int =\n\tf = {x : int -> %s\n%s\t}\n;;\nconst main = {\n\tf(1)\n}\n" % (res, res, text)
    return {"body": js, "result": int(b["res"] is not None), "got": None}, src


def check(c):
    c.build(libs=False)
    cases = [case(c.rng) for _ in range(c.n(3000, 60000))]
    got = compile_all(c, [s for _, s in cases])
    stat = {}
    for (row, src), (g, out) in zip(cases, got):
        row["got"] = g
        k = g
        out = out.decode("utf8", "replace")
        if g == "reject":
            k = "used before definition" if "used before" in out else "no return" if "without return" in out else "other: " + out.strip()[-70:]
        stat[k] = stat.get(k, 0) + 1
    c.note(stat)
    c.extra["verdicts"] = stat
    r = c.traces_ok("DefAssign", [row for row, _ in cases], xss="64m")
    c.sample({"source": cases[0][1], "verdict": got[0][0]})
    if r:
        i = r["t"] - 1
        c.violation("the compiler's verdict is %s" % got[i][0], "source:\n%s\ncompiler: %s\nspecification: %s" % (
            cases[i][1], got[i][1].decode("utf8", "replace"), r["state"]))


if __name__ == "__main__":
    vlib.main(check, "L14")
