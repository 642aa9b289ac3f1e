"""Distributes a one-file program over files and packages.  The order of the
declarations is kept, so what a file says refers to itself and to files before
it; which names are exported, package-local or private, whether a declaration
stands in the export list or only its prototype does, and whether packages are
used file by file or merged, is chosen at random."""
import os, re

TOK = re.compile(r"'(?:\\.|[^'\\\n])*'|\"(?:\\.|[^\"\\\n])*\"|`?@?\.?[A-Za-z_]\w*|\.\d+|\d\w*|\s+|.", re.S)
START = re.compile(r"(?:pkglocal |extern |\$noret )*(type|trait|impl|generic|const|var|use|extern)\b")


class Item:
    def __init__(self, text):
        self.text = text
        m = START.match(text)
        self.kind = m.group(1)
        if text.startswith("extern"):
            self.kind = "extern"
        self.names, self.tags = set(), set()
        if self.kind in ("type", "const", "var", "generic", "trait"):
            self.name = re.match(r"(?:\$noret )?\w+ (\w+)", text).group(1)
            self.names.add(self.name)
        if self.kind == "trait":
            self.names |= set(re.findall(r"^\t(\w+)\s*:", text, re.M))
            self.trait = self.name
        if self.kind == "impl":
            self.trait = re.match(r"impl (\S+)", text).group(1)
        if self.kind == "type":
            self.tags = set(re.findall(r"`(\w+)", text))
        self.refs, self.trefs = set(), set()
        for t in TOK.findall(text):
            if t[0] == "`":
                self.trefs.add(t[1:])
            elif re.match(r"[A-Za-z_]", t):
                self.refs.add(t)


def items(text):
    r = []
    for line in text.split("\n"):
        if START.match(line) or not r:
            r.append([line])
        else:
            r[-1].append(line)
    return [Item("\n".join(x).rstrip("\n") + "\n") for x in r if "\n".join(x).strip()]


def qualify(text, names, tags, where, pkg):
    """the text as it has to be in package pkg; where: name -> package"""
    out, prev, word = [], "", ""
    toks = TOK.findall(text)
    for i, t in enumerate(toks):
        if t[0] == "`" and t[1:] in tags and tags[t[1:]] != pkg:
            out.append("`%s.%s" % (tags[t[1:]], t[1:]))
        elif t in names and where[t] != pkg and where[t] is not None and prev != ".":
            out.append("%s.%s" % (where[t], t))
        else:
            out.append(t)
        if not t.isspace():
            prev = t
    return "".join(out)


def impl_text(it, q):
    """names defined in an implementation are never qualified"""
    return re.sub(r"^\t(\w+)\.(\w+)(\s*=)", r"\t\2\3", q, flags=re.M)


class Split:
    """files: list of {name, pkg, uses, text}"""
    def __init__(self, text, rng, inits=True):
        r = self.r = rng
        its = items(text)
        self.heads = [i for i in its if i.kind in ("use", "extern")]
        its = [i for i in its if i.kind not in ("use", "extern")]
        # ties: a reference forward keeps everything between together
        pos, tpos = {}, {}
        for k, i in enumerate(its):
            for n in i.names:
                pos[n] = k
            for n in i.tags:
                tpos[n] = k
        glue = [False] * len(its)      # glue[k]: k goes with k - 1
        for k, i in enumerate(its):
            for p in [pos.get(n, -1) for n in i.refs] + [tpos.get(n, -1) for n in i.trefs]:
                for j in range(k + 1, p + 1):
                    glue[j] = True
        # main and the tests stay together
        first = min(k for k, i in enumerate(its) if i.kind == "const" and re.match(r"test\d+$|main$", i.name))
        for k in range(first + 1, len(its)):
            glue[k] = True
        cuts = [k for k in range(1, len(its)) if not glue[k]]
        n = min(len(cuts), r.randint(1, 4))
        cut = sorted(r.sample(cuts, n))
        groups = [its[a:b] for a, b in zip([0] + cut, cut + [len(its)])]
        nf = len(groups)
        # packages: consecutive files
        pk, pkgs = 0, []
        for f in range(nf):
            if f and r.random() < .55:
                pk += 1
            pkgs.append(pk)
        names = ["alpha", "beta", "gamma", "delta", "eps"]
        r.shuffle(names)
        self.pkg = [names[p] for p in pkgs]
        # main means the program's only without a package
        self.pkg[-1] = None
        self.groups, self.its, self.nf = groups, its, nf
        self.fname = ["f%d" % f for f in range(nf)]
        where = {}
        twhere = {}
        filef = self.filef = {}
        for f, g in enumerate(groups):
            for i in g:
                i.file = f
                for n in i.names:
                    where[n] = self.pkg[f]
                    filef[n] = f
                for n in i.tags:
                    twhere[n] = self.pkg[f]
        # which packages are used merged: all files of it come before the user
        self.merged = {p for p in sorted({x for x in self.pkg if x}) if r.random() < .5 and p != self.pkg[-1]}
        # uses: everything before, since implementations have no name to go by
        self.uses = []
        for f in range(nf):
            u = []
            for e in range(f):
                if self.pkg[e] == self.pkg[f] or self.pkg[e] not in self.merged:
                    u.append('"%s"' % self.fname[e])
                elif self.pkg[e] not in u:
                    u.append(self.pkg[e])
            r.shuffle(u)
            self.uses.append(u)
        # visibility
        users = {}
        for k, i in enumerate(its):
            for n in i.refs:
                if n in pos and its[pos[n]] is not i:
                    users.setdefault(pos[n], set()).add(i.file)
            for n in i.trefs:
                if n in tpos and its[tpos[n]] is not i:
                    users.setdefault(tpos[n], set()).add(i.file)
        for k, i in enumerate(its):
            us = users.get(k, set())
            if i.kind in ("impl", "trait"):
                i.vis = "export"
            elif all(u == i.file for u in us):
                i.vis = r.choice(("private", "private", "pkglocal", "export"))
            elif all(self.pkg[u] == self.pkg[i.file] for u in us):
                i.vis = r.choice(("pkglocal", "pkglocal", "export"))
            else:
                i.vis = "export"
            if i.kind == "const" and i.name == "main":
                i.vis = "private"
        self.where, self.twhere, self.names = where, twhere, set(where)
        self.inits = [0] * nf
        self.files = []
        for f, g in enumerate(groups):
            self.files.append({"name": self.fname[f], "pkg": self.pkg[f], "uses": self.uses[f], "text": self.render(f, g, inits)})

    def render(self, f, g, inits):
        r = self.r
        head, exp, body = [], [], []
        pkgfirst, inlist = r.random() < .6, set()
        for h in self.heads:
            head.append(h.text)
        for u in self.uses[f]:
            head.append("use %s\n" % u)
        r.shuffle(head)
        head.sort(key=lambda x: not x.startswith("use"))
        for i in g:
            q = qualify(i.text, self.names, self.twhere, self.where, self.pkg[f])
            if i.kind == "impl":
                q = impl_text(i, q)
            if i.vis == "private" or self.pkg[f] is None:
                body.append(q)
                continue
            a = "pkglocal " if i.vis == "pkglocal" else ""
            p = None
            # what a generic is has to be known before it is used: a definition
            # in the list only mentions what comes before, or is in the list
            mine = {n for n, w in self.filef.items() if w == f}
            free = pkgfirst and not ((i.refs - i.names) & mine - inlist) or i.kind in ("type", "trait")
            if i.kind in ("const", "var", "generic") and (not free or r.random() < .6):
                p = proto(q)
                if not p and not free:
                    pkgfirst = True
            if p:
                # the type is told once
                exp.append(a + p)
                body.append(re.sub(r"^(\w+ \w+) : .*? = ", r"\1 = ", q) if re.match(r"\w+ \w+ :", q) else q)
            elif i.kind == "impl" and r.random() < .5:
                exp.append(q.split("\n")[0].rsplit("=", 1)[0].rstrip() + "\n")
                body.append(q)
            else:
                exp.append(a + q)
                inlist |= i.names
        out = "".join(head)
        pkg = ""
        if self.pkg[f] is not None:
            pkg = "pkg %s =\n%s;;\n" % (self.pkg[f], "".join("\t" + l + "\n" for x in exp for l in x.rstrip("\n").split("\n")))
        if inits and (r.random() < .7):
            self.inits[f] = 0xf100 + f
            body.append("const priv = {-> uint64\n\t-> %d\n}\n" % (0xf100 + f))
            body.append("const __init__ = {\n\tobs(priv())\n}\n")
        if pkgfirst:
            return out + pkg + "".join(body)
        return out + "".join(body) + pkg


# ------------------------------------------------- functions made generic
DEFN = re.compile(r"const (\w+) = \{(.*)$")


def fits(a, b):
    """statements without an effect, unless something is read wrongly"""
    return "if %s != %s\n\tobs(0xbad)\n;;" % (a, b)


def quiet(r, h, g, k):
    """statements of all sorts that observe nothing; h(x) is x + 1, g a global counter"""
    cp = r.choice((0x41, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x1f600, 0x10ffff, r.randrange(0x20, 0xd800)))
    st = [r.choice((0, 0x41, 0x7f, 0x80, 0xff, r.randrange(256))) for _ in range(r.randint(1, 9))]
    st.insert(r.randrange(len(st) + 1), 0)
    n = r.randint(1, 5)
    big = r.choice((0x7f, 0x80, 0xffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0xfedcba9876543210))
    tx = "".join("\\x%02x" % b for b in st)
    j = r.randrange(len(st))
    v = "q%d" % k
    d, e = r.randint(-90, 90), r.choice((2, 4, 8, 1024))
    return r.choice([
        fits("('\\u{%x}' : uint64)" % cp, cp),
        fits('"%s".len' % tx, len(st)),
        fits('("%s"[%d] : uint64)' % (tx, j), st[j]),
        fits("(%d : uint64)" % big, "(0x%x : uint64)" % big),
        fits("(%d.5 : flt64) * %d.0" % (d, e), "(%d : flt64)" % (d * e + (-e // 2 if d < 0 or str(d)[0] == "-" else e // 2))),
        fits("{x : int; -> %s(x)}(%d)" % (h, n), n + 1),
        fits("sizeof((@zz, uint64)[%d])" % n, "%d * sizeof((@zz, uint64))" % n),
        "var %s = 0\nfor var %si = 0; %si < %d; %si = %s(%si)\n\t%s++\n;;\n" % (v, v, v, n, v, h, v, v) + fits(v, n),
        "var %s = 0\nwhile %s(%s) <= %d\n\t%s = %s(%s)\n;;\n" % (v, h, v, n, v, h, v) + fits(v, n),
        "var %s = %s\n%s += %d\n%s -= %d\n" % (v, g, g, n, g, n) + fits(v, g),
        "match '\\u{%x}'\n| '\\u{%x}':\n| _:\tobs(0xbad)\n;;" % (cp, cp),
        'match "%s"\n| "%s":\n| _:\tobs(0xbad)\n;;' % (tx, tx),
        "match (%s(%d), %d)\n| (%d, _):\tobs(0xbad)\n| (%d, %d):\n| _:\tobs(0xbad)\n;;" % (h, n, d, n, n + 1, d),
        "match (zz, %s(%d))\n| (_, %d):\n| (_, _):\tobs(0xbad)\n;;" % (h, n, n + 1),
        "var %s = 0\nfor (%sa, %sb) : [(1, %d), (2, %d)][:]\n\t%s += %sa * %sb\n;;\n" % (v, v, v, n, d, v, v, v) + fits(v, n + 2 * d),
        "var %s : (@zz, int) = (zz, %s(%d))\n" % (v, h, n) + fits(v + ".1", n + 1),
        "var %s : int[:] = [.[1]=%s(%d), .[0]=%d][:]\n" % (v, h, n, d) + fits(v + "[1]", n + 1) + "\n" + fits(v + "[0]", d),
        "const %s = {x : int; -> x * %d}\n" % (v, n) + fits("%s(%d)" % (v, d), n * d),
        "var %s = {y : @zz; -> (y, %s(%d))}\n" % (v, h, n) + fits("%s(zz).1" % v, n + 1),
        "var %s = &zz\n%s# = zz" % (v, v),
        "goto l%s\nobs(0xbad)\n:l%s" % (v, v),
        "if %s(%d) == %d\n\tobs(0xbad)\nelif %s(%d) == %d\n\t%s += 0\nelse\n\tobs(0xbad)\n;;" % (h, n, n, h, n, n + 1, g),
        fits("(%s(%d) == %d ? %d : %d)" % (h, n, n + 1, d, d + 1), d),
        "var %s = %d\n%s <<= 3\n%s |= 5\n%s ^= 1\n%s %%= 7\n" % (v, n, v, v, v, v) + fits(v, (((n << 3) | 5) ^ 1) % 7),
    ])


def generify(text, r):
    """some functions take one more argument, of any type at all, and get
    statements without an effect; the meaning stays"""
    its = items(text)
    toks = [TOK.findall(i.text) for i in its]
    pos = {}
    for k, i in enumerate(its):
        m = DEFN.match(i.text.split("\n")[0])
        if m and m.group(2).count("->") == 1 and "{" not in m.group(2) and i.name != "main" and not re.match(r"test\d+$", i.name) and ";" not in m.group(2):
            pos[i.name] = k
    for k, tk in enumerate(toks):
        for j, t in enumerate(tk):
            if t in pos and not (pos[t] == k and tk[:j] == ["const", " "]):
                if j + 1 >= len(tk) or tk[j + 1] != "(" or k < pos[t]:
                    del pos[t]
    chosen = {n for n in sorted(pos) if r.random() < .7}
    out, cnt = [], 0
    for k, (i, tk) in enumerate(zip(its, toks)):
        mine = i.kind == "const" and i.name in chosen and pos[i.name] == k
        res, stack, j = [], [], 0
        for j, t in enumerate(tk):
            if t == "(":
                stack.append(tk[j - 1] if j and tk[j - 1] in chosen else None)
                if stack[-1]:
                    stack[-1] = tk[j + 1] == ")"
            elif t == ")" and stack:
                x = stack.pop()
                if x is not None:
                    a = "zz" if mine and r.random() < .7 or mine and depth_self(tk, i.name) else r.choice(
                        ("true", "(7 : int16)", "'c'", '"s"', "(1, true)", "(3 : uint64)", "[1, 2, 3]", "void", "0.5", "{x : int; -> x}"))
                    res.append(a if x else ", " + a)
            res.append(t)
        tx = "".join(res)
        if mine:
            cnt += 1
            h, g = "hlp%d" % cnt, "glb%d" % cnt
            ls = tx.split("\n")
            m = DEFN.match(ls[0])
            a, b = m.group(2).rsplit("->", 1)
            a = a.strip()
            ls[0] = "generic %s = {%szz : @zz ->%s" % (i.name, a + ", " if a else "", b)
            pre = [quiet(r, h, g, 900 + 10 * cnt + x) for x in range(r.randint(0, 4))]
            ls[1:1] = ["\t" + y for x in pre for y in x.split("\n")]
            used = "\n".join(ls)
            if h in used:
                out.append("const %s = {x : int -> int\n\t-> x + 1\n}\n" % h)
            if g in used:
                out.append("var %s : int = %d\n" % (g, r.randint(0, 99)))
            if r.random() < .3:
                # never comes back, so nothing needs to follow
                out.append("$noret const hlt%d = {x : int -> void\n\twhile true\n\t\tx++\n\t;;\n}\n" % cnt)
                out.append("const nrt%d = {x : int -> int\n\tif x < 1000\n\t\t-> x - 1\n\t;;\n\thlt%d(x)\n}\n" % (cnt, cnt))
                used = used.replace("\n", "\n\tif nrt%d(7) != 6\n\t\tobs(0xbad)\n\t;;\n" % cnt, 1)
            tx = used
        out.append(tx if tx.endswith("\n") else tx + "\n")
    return "".join(out)


def depth_self(tk, name):
    """calls itself: the types have to stay the same"""
    return tk.count(name) > 1


def proto(text):
    """the prototype of a definition, or None"""
    if text.startswith("$noret "):
        p = proto(text[7:])
        return p and "$noret " + p
    l = text.split("\n")[0]
    m = re.match(r"(const|var) (\w+) : (.*?) = ", l)
    if m and "{" not in m.group(3):
        return "%s %s : %s\n" % m.groups()
    m = re.match(r"(const|generic) (\w+) = \{(.*)$", l)
    if m:
        sig = m.group(3)
        if not sig.strip() and m.group(1) == "const":
            return "const %s : (-> void)\n" % m.group(2)
        if "->" not in sig or "{" in sig:
            return None
        # the traits follow the type
        k = sig.split(" :: ")
        if len(k) > 2 or ";" in sig:
            return None
        if not re.match(r"^\s*(\w+ : |-> )", k[0]):
            return None
        return "%s %s : (%s)%s\n" % (m.group(1), m.group(2), k[0].strip(), " :: " + k[1].strip() if len(k) > 1 else "")
    m = re.match(r"generic (\w+) : (.*?) = .*?( :: .*)?$", l)
    if m and len(text.strip().split("\n")) == 1:
        return "generic %s : %s%s\n" % (m.group(1), m.group(2), m.group(3) or "")
    return None
