"""What source text denotes: spec/Lex.tla lexes generated and mutated texts and
says what the program made of them reports, or that it has to be rejected."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
import myrrun

PRE = b"extern const obs : (x : uint64 -> void)\n"
INTS = [(b, u) for b in (8, 16, 32, 64) for u in (0, 1)]
KW = {b"if", b"for", b"use", b"pkg", b"var", b"auto", b"elif", b"else", b"goto", b"impl", b"type", b"true", b"void",
      b"const", b"break", b"false", b"match", b"trait", b"union", b"while", b"struct", b"sizeof", b"extern", b"generic",
      b"continue", b"pkglocal", b"_", b"int", b"bool", b"byte", b"char", b"main", b"obs", b"x", b"c"}


def tyname(b, u):
    return (b"u" if u else b"") + b"int%d" % b


class G:
    def __init__(self, r):
        self.r = r

    def name(self):
        r = self.r
        if r.random() < .15:
            s = r.choice(sorted(KW)) + r.choice((b"_", b"x", b"0", b"E", b"$"))
        else:
            n = r.choice((1, 2, 3, 5, 9, 40)) if r.random() < .98 else r.choice((255, 600, 999)) if r.random() < .9 else r.choice((1022, 1023, 1024, 1025, 3000))
            s = bytes(r.choice(b"abcdefxubelsiABEZ_") for _ in range(1)) + bytes(
                r.choice(b"abcdefxubelsi0189ABXUE_") for _ in range(n - 1))
        return s

    def fns(self):
        used = set(KW)
        fs = []
        kinds = [("int", b, u) for b, u in INTS] + [("chr", 0, 0), ("str", 0, 0), ("str", 0, 0), ("flt", 0, 0)]
        for k in kinds:
            while True:
                n = self.name()
                if n not in used:
                    break
            used.add(n)
            fs.append({"n": n, "k": k[0], "b": k[1], "u": k[2]})
        # names that agree in all but their last byte
        if self.r.random() < .2:
            a, b = self.r.sample(range(len(fs)), 2)
            n = fs[a]["n"] + self.r.choice((b"_", b"1", b"b"))
            if n not in used:
                fs[b]["n"] = n
        return fs

    def program(self, fs, body):
        p = PRE
        for f in fs:
            k, b, u, n = f["k"], f["b"], f["u"], f["n"]
            if k == "int":
                p += b"const %s = {x : %s\n\tobs((x : uint64))\n}\n" % (n, tyname(b, u))
            elif k == "chr":
                p += b"const %s = {x : char\n\tobs((x : uint64))\n}\n" % n
            elif k == "flt":
                p += b"const %s = {x : flt64\n\tobs((x * 1024.0 : uint64))\n}\n" % n
            else:
                p += b"const %s = {x : byte[:]\n\tobs((x.len : uint64))\n\tfor var i = 0; i < x.len; i++\n\t\tobs((x[i] : uint64))\n\t;;\n}\n" % n
        return p + b"const main = {\n" + body + b"\n}\n"

    # ---------------------------------------------------------------- texts
    def under(self, s):
        r = self.r
        if r.random() < .7:
            return s
        o = s[:1]
        for ch in s[1:]:
            if r.random() < .25:
                o += b"_" * r.choice((1, 1, 2))
            o += bytes([ch])
        return o + (b"_" if r.random() < .2 else b"")

    def int(self, b, u):
        r = self.r
        base = r.choice((10, 10, 16, 16, 2, 8))
        hi = 2 ** b if u else 2 ** (b - 1)
        x = r.random()
        v = (r.randrange(hi) if x < .4 else r.randrange(min(hi, 300)) if x < .6
             else max(0, hi - r.choice((0, 1, 1, 2, 3, -1, -2))) if x < .9 else r.choice((2 ** 64, 2 ** 64 - 1, 2 ** 63, 2 ** 65 + 5, 10 ** 20, 2 ** b)))
        if x < .85:
            v = min(v, hi - 1)
        s = {10: "%d", 16: "%x", 8: "%o"}.get(base, "") % v if base != 2 else bin(v)[2:]
        s = s.encode()
        if r.random() < .3:
            s = s.upper()
        if r.random() < .15:
            s = b"0" * r.choice((1, 3, 60)) + s
        s = {10: b"", 16: b"0x", 8: b"0o", 2: b"0b"}[base] + self.under(s)
        if base == 10 and s[:2] in (b"0x", b"0b", b"0o"):
            s = b"1"
        if r.random() < .35 and not (base == 16 and b == 8 and not u):
            sb = b if r.random() < .9 else r.choice((8, 16, 32, 64))
            suf = ("u" if u else "") + {8: "b", 16: "s", 32: "i", 64: "l"}[sb]
            s += suf.encode() if r.random() < .7 else suf.upper().encode()
        return s

    def cp(self):
        r = self.r
        return r.choice((r.randrange(32, 127), r.randrange(160, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0xfffe),
                         r.randrange(0x10000, 0x110000), r.choice((0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff))))

    def escape(self, v=None):
        r = self.r
        x = r.random()
        if x < .4:
            return b"\\" + bytes([r.choice(b"nrtb\"'v\\0")])
        if x < .7:
            h = b"%02x" % r.randrange(256)
            return b"\\x" + (h.upper() if r.random() < .5 else h)
        h = b"%x" % (self.cp() if r.random() < .97 else r.choice((0x110000, 0x10ffff, 0x110001, 0x1fffff, 0x200000, r.randrange(0x110000, 0x2000000))))
        return b"\\u{" + b"0" * r.choice((0, 0, 1, 4)) + (h.upper() if r.random() < .5 else h) + b"}"

    def str1(self):
        r = self.r
        s = b'"'
        for _ in range(r.choice((0, 1, 2, 3, 6, 20))):
            x = r.random()
            if x < .3:
                s += self.escape()
            elif x < .6:
                s += bytes([r.choice([c for c in range(32, 127) if c not in b'"\\'])])
            elif x < .75:
                s += r.choice((b"/*", b"*/", b"//", b";", b"''", b"}", b")", b" ", b"\t"))
            elif x < .9:
                s += chr(self.cp()).encode("utf8", "surrogatepass")
            else:
                s += bytes([r.choice([c for c in range(1, 256) if c not in b'"\\\n'])])
        return s + b'"'

    def chr1(self):
        r = self.r
        x = r.random()
        if x < .45:
            return b"'" + self.escape() + b"'"
        if x < .7:
            return b"'" + bytes([r.choice([c for c in range(32, 127) if c not in b"\\"])]) + b"'"
        return b"'" + chr(self.cp()).encode("utf8", "surrogatepass") + b"'"

    def flt(self):
        r = self.r
        frac = r.choice(("0", "5", "25", "125", "0625", "500", "75", ""))
        s = "%d.%s" % (r.randrange(r.choice((2, 10, 400))), frac)
        if r.random() < .4:
            s = (s if r.random() < .7 else s.split(".")[0]) + r.choice("eE") + r.choice(("", "+", "-")) + r.choice(("0", "1", "2", "02", "3"))
        return self.under(s.encode())

    def gap(self, nl=False):
        """white space"""
        r = self.r
        x = r.random()
        if x < .5:
            return b""
        if x < .7:
            return bytes(r.choice(b" \t\r\v\f") for _ in range(r.choice((1, 1, 2, 4))))
        if x < .85:
            return r.choice((b"/**/", b"/* x */", b"/* /* ( */ \n */", b"/*/**/*/", b"/***/", b"/* \" */", b"/* // */", b"/*/ */",
                             b"/* \n\n*/", b"/* *//* /* */ */", b"/* \xff */", b"/*\xc3\xa9*/", b"/* ' * / */"))
        if x < .93:
            return b"\\" + r.choice((b"", b" ", b"\t", b" // c", b"/* a */")) + b"\n"
        return self.gap() + self.gap()

    def stmt(self, fs):
        r = self.r
        f = r.choice(fs)
        k = f["k"]
        if r.random() < .04:
            k = r.choice(("int", "chr", "str", "flt"))
        a = (self.int(f["b"] or 32, f["u"]) if k == "int" else self.chr1() if k == "chr" else self.flt() if k == "flt"
             else self.gap().join(self.str1() for _ in range(r.choice((1, 1, 1, 2, 3)))))
        g = self.gap
        return g() + f["n"] + g() + b"(" + g() + a + g() + b")" + g()

    def body(self, fs):
        r = self.r
        s = b""
        for i in range(r.choice((1, 2, 3, 4, 6))):
            s += self.stmt(fs)
            s += r.choice((b"\n", b"\n", b"\n", b" ; ", b";\n", b" // comment /* ( \n", b"\n\n", b"//\n"))
            if r.random() < .08:
                s += r.choice((b"// a line ending in a backslash \\\n", b"// \xff\n", b"/* a */\n"))
        return s

    ALPHA = b"0123456789abcdefxoulsibUBeE._+-'\"\\{}();/*\n \t@#\x00\x01\x7f\x80\xc3\xff"

    def mutate(self, s):
        r = self.r
        s = bytearray(s)
        for _ in range(r.choice((1, 1, 1, 2, 3))):
            i = r.randrange(len(s)) if s else 0
            x = r.random()
            if x < .3 and s:
                del s[i]
            elif x < .65:
                s.insert(i, r.choice(self.ALPHA))
            elif x < .8 and s:
                s[i] = r.choice(self.ALPHA)
            elif x < .9:
                s[i:i] = s[i:i + r.choice((1, 2, 5))]
            elif s:
                j = r.randrange(len(s))
                s[i], s[j] = s[j], s[i]
        return bytes(s)


def check(c):
    c.build(libs=False)
    g = G(c.rng)
    myrrun.helper(c)
    cases = []
    for _ in range(c.n(2500, 40000)):
        fs = g.fns()
        b = g.body(fs)
        if c.rng.random() < .45:
            b = g.mutate(b)
        cases.append((fs, b, g.program(fs, b)))
    d = c.path("lex")
    os.makedirs(d, exist_ok=True)

    def one(i):
        f = os.path.join(d, "c%d.myr" % i)
        with open(f, "wb") as fh:
            fh.write(cases[i][2])
        rc, out = c.mc(f, incs=False, timeout=60)
        obj = f[:-4] + ".o"
        has = os.path.exists(obj)
        msg = out.decode("utf8", "replace")[-600:]
        try:
            if rc != 0 or not has:
                if rc != 0 and rc != "timeout" and rc > 0 and not has and msg.strip():
                    return "reject", [], msg
                return "crash status %s%s" % (rc, " object written" if has else ""), [], msg
            exe = f[:-4]
            rc, out = c.run(["ld", "--no-warnings", "-o", exe, os.path.join(c.src, "rt/_myrrt.o"), obj, myrrun.helper(c)])
            if rc != 0:
                return "not linked", [], out.decode("utf8", "replace")[-600:]
            end, vals = myrrun.run_test(c, exe, 0)
            return ("accept" if end == "ok" else "accept, run: " + end), vals[:300], msg
        finally:
            for x in (f, obj, f[:-4]):
                if os.path.exists(x):
                    os.unlink(x)
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(one, range(len(cases))))
    rows, stat = [], {}
    for (fs, b, _), (v, out, msg) in zip(cases, got):
        rows.append({"text": list(b), "fns": [dict(f, n=list(f["n"])) for f in fs], "got": v, "out": out})
        stat[v] = stat.get(v, 0) + 1
    c.note(stat)
    c.extra["verdicts"] = stat
    r = c.traces_ok("Lex", rows, xss="512m")
    c.sample({"text": repr(cases[0][1]), "verdict": got[0][0], "reported": len(got[0][1])})
    if r:
        i = r["t"] - 1
        c.violation("the compiler's verdict is %s" % got[i][0], "text: %r\nprogram: %r\nreported: %s\ncompiler: %s\nspecification: %s" % (
            cases[i][1], cases[i][2][:6000], myrrun.hexes(got[i][1])[:60], got[i][2], r["state"][:3000]))


if __name__ == "__main__":
    vlib.main(check, "L13")
