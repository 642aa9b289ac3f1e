"""Splitting a program into files and packages does not change its meaning."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from concurrent.futures import ThreadPoolExecutor
import vlib, mypkg, myrrun
import L05, L06, L08, L09, L11
from myrast import *


class Failed(Exception):
    pass


def build(c, d, files, merged, libs):
    """compiles the files in order, merging packages when the next file wants them"""
    os.makedirs(d, exist_ok=True)
    for f in files:
        with open(os.path.join(d, f["name"] + ".myr"), "w") as h:
            h.write(f["text"])
    inc = ["-I", "."]
    if libs:
        inc += c.incs()
    done = set()
    for f in files:
        for q in merged:
            if q in f["uses"] and q not in done:
                done.add(q)
                rc, out = c.run([os.path.join(c.src, "muse/muse"), "-o", q, "-p", q] + [g["name"] + ".use" for g in files if g["pkg"] == q], cwd=d, timeout=25)
                if rc != 0 or not os.path.exists(os.path.join(d, q)):
                    raise Failed("crash muse status %s" % rc, out.decode("utf8", "replace"))
        rc, out = c.run([os.path.join(c.src, "6/6m")] + inc + [f["name"] + ".myr"], cwd=d, timeout=25, env={"TMPDIR": d})
        obj = os.path.exists(os.path.join(d, f["name"] + ".o"))
        if rc != 0 or not obj:
            raise Failed("reject" if rc == 1 and out.strip() and not obj else "crash 6m status %s" % rc, out.decode("utf8", "replace"))
    rc, out = c.run(["ld", "-z", "noexecstack", "-o", "prog", os.path.join(c.src, "rt/_myrrt.o")] + [f["name"] + ".o" for f in files] +
                    [myrrun.helper(c), aliases(c)] + (myrrun.stdlibs(c) if libs else []), cwd=d)
    if rc != 0:
        raise Failed("crash ld", out.decode("utf8", "replace"))
    return os.path.join(d, "prog")


NAMES = ("alpha", "beta", "gamma", "delta", "eps", "aa", "bb", "cc", "dd", "ee")


def aliases(c):
    """an extern symbol has its package's name in front"""
    o = c.path("alias.o")
    if not os.path.exists(o):
        with open(c.path("alias.s"), "w") as f:
            f.write(".text\n" + "".join(".globl %s$obs\n%s$obs: jmp obs\n" % (n, n) for n in NAMES) + '.section .note.GNU-stack,"",@progbits\n')
        rc, out = c.run(["as", "-o", o, c.path("alias.s")])
        if rc:
            raise vlib.CheckError("as: %s" % out)
    return o


def listing(files, merged):
    return "merged: %s\n" % sorted(merged) + "".join("-------- %s.myr\n%s" % (f["name"], f["text"]) for f in files)


def prow(files, merged, inits, refs=(), decls=None):
    return {"files": [{"name": f["name"], "pkg": f["pkg"] or "", "uses": [u.strip('"') for u in f["uses"] if u[0] == '"'],
                       "merged": [u for u in f["uses"] if u[0] != '"'], "init": inits[k], "decls": decls[k] if decls else []}
                      for k, f in enumerate(files)], "refs": list(refs)}


# ------------------------------------------------------------- whole programs
def split_programs(c):
    n = c.n(12, 150)
    progs = [(x, p) for x in (L11, L08, L06, L05, L09) for p in [mk(x, c.rng) for _ in range(n if x is L11 else n // 2)]]
    cases = []
    for x, p in progs:
        for i in range(3):
            # a parameter more in some functions does not change the meaning either
            t = mypkg.generify(p.text(), c.rng) if i and x is not L11 else p.text()
            s = mypkg.Split(t, c.rng)
            cases.append((p, s))

    def one(k):
        p, s = cases[k]
        try:
            exe = build(c, c.path("split", "s%d" % k), s.files, s.merged, getattr(p, "libs", False))
        except Failed as e:
            return k, None, e.args
        return k, [myrrun.run_test(c, exe, i) for i in range(len(p.tests))], None

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(cases))))
    rows, pk, where, pj, idx = [], [], [], [], {}
    for k, runs, err in res:
        p, s = cases[k]
        if id(p) not in idx:
            pj.append(p.json())
            idx[id(p)] = len(pj)
        if err:
            c.violation("a program split over files is not built: %s" % err[0], err[1][:1500] + "\n" + listing(s.files, s.merged)[:40000])
            continue
        tags = {i for i in s.inits if i}
        for i, (end, out) in enumerate(runs):
            v = [sum(l << (16 * j) for j, l in enumerate(o)) for o in out]
            m = 0
            while m < len(v) and v[m] in tags:
                m += 1
            if i == 0:
                r = prow(s.files, s.merged, s.inits)
                r.update(got="accept", inits=v[:m], ran=True, out=[], vals=[])
                pk.append((r, s.files, s.merged, out))
            rows.append({"prog": idx[id(p)], "body": [x.j for x in p.tests[i].stmts] if hasattr(p.tests[i], "stmts") else [x.j for x in p.tests[i]],
                         "out": out[m:][:4000], "end": end})
            where.append((k, i))
    c.note("%d splits of %d programs, %d runs" % (len(cases), len(progs), len(rows)))
    if rows:
        r = c.tlc("MyrTrace", data={"traces.ndjson": rows, "progs.ndjson": pj}, invs=["Accepted"], xss="512m")
        c.traces += len(rows)
        if not r["ok"]:
            t = int(re.search(r"/\\ t = (\d+)", r["state"]).group(1)) - 1
            k, i = where[t]
            c.violation("a program split over files behaves differently", "test %d\nfirst difference: %s\n%s" % (
                i, myrrun.first_diff(r["state"], rows[t]), listing(cases[k][1].files, cases[k][1].merged)[:40000]))
    return pk


def mk(x, rng):
    p = x.program(rng)
    p = getattr(p, "prog", p)
    if rng.random() < .4:
        widen(p, rng)
    return p


def widen(p, rng):
    """adds a union of many tags, made in one function and taken apart in others"""
    n = rng.choice((5, 64, 66, 100, 140))
    tags = ["WW%d" % i for i in range(n)]
    pay = {k for k in range(n) if rng.random() < .1}
    t = union("wideu", [(g, U64 if k in pay else None) for k, g in enumerate(tags)])
    p.types.append(t)
    ks = list(range(n))
    rng.shuffle(ks)
    mkx = lambda k, e: un_lit(t, tags[k], e if k in pay else None)
    some = ks[:rng.randint(3, 12)]
    arms = [(plit(ilit(k, U64)), [ret(mkx(k, var("k", U64)))]) for k in some]
    arms.append((pwild(), [ret(mkx(ks[-1], var("k", U64)))]))
    arms2 = [(pun(tags[k], pbind("v") if k in pay else None), [ret(bin_("+", var("v", U64), ilit(k, U64)) if k in pay else ilit(k * 3 + 1, U64))]) for k in ks[:n - rng.randint(0, 2)]]
    arms2.append((pwild(), [ret(ilit(9999, U64))])) if len(arms2) < n else None
    f = Fn("widemk", [("k", U64)], t, [match(var("k", U64), arms)])
    g = Fn("widenum", [("x", t)], U64, [match(var("x", t), arms2)])
    test = len(p.tests)
    for h in (f, g):
        h.test = test
        p.fns.append(h)
    st = []
    for k in some + [n + 3]:
        st.append(obs(call("widenum", [call("widemk", [ilit(k, U64)], t)], U64)))
    for k in ks[-4:]:
        st.append(obs(call("widenum", [mkx(k, ilit(7, U64))], U64)))
    p.tests.append(st)


# ------------------------------------------------------- visibility, by itself
KINDS = ("const", "var", "fn", "gen", "type", "tag")


def vis_case(rng):
    r = rng
    nf = r.randint(2, 5)
    pn = r.sample(["aa", "bb", "cc", "dd", "ee"], 5)
    pkg, k = [], 0
    for f in range(nf):
        if f and r.random() < .5:
            k += 1
        pkg.append(pn[k])
    pkg[-1] = ""         # main means the program's only without a package
    merged = {p for p in sorted(set(pkg[:-1])) if p != pkg[-1] and r.random() < .4}
    files, decls, allnames = [], [], {}
    for f in range(nf):
        uses = []
        for e in range(f):
            u = pkg[e] if pkg[e] in merged and pkg[e] != pkg[f] else '"f%d"' % e
            if r.random() < .7 and u not in uses:
                uses.append(u)
        r.shuffle(uses)
        ds = []
        for j in range(r.randint(1, 4)):
            n = r.choice("uvwxyz")
            vis = r.choice(("export", "export", "pkglocal", "private")) if pkg[f] else "private"
            others = allnames.get((pkg[f], n), [])
            if any(o == f for o, _ in others) or (others and not (vis == "private" and all(v == "private" for _, v in others))):
                continue
            allnames.setdefault((pkg[f], n), []).append((f, vis))
            ds.append({"n": n, "vis": vis, "kind": r.choice(KINDS), "v": r.randint(1, 200)})
        files.append({"name": "f%d" % f, "pkg": pkg[f] or None, "uses": uses})
        decls.append(ds)
    inits = [0xf100 + f if r.random() < .7 else 0 for f in range(nf)]
    # references: mostly ones that should work
    refs = []
    tr = prow(files, merged, inits, decls=decls)
    for f in range(nf):
        for e in range(f + 1):
            for dd in decls[e]:
                if r.random() < (.5 if f < nf - 1 else .8):
                    ref = {"file": f + 1, "q": pkg[e], "n": dd["n"], "kind": dd["kind"]}
                    ok = e == f or (sees(files, pkg, f, e) and (dd["vis"] == "export" or dd["vis"] == "pkglocal" and pkg[e] == pkg[f]))
                    # how a name is written depends on its package only
                    if not pkg[e] and e != f:
                        continue
                    if e != f and pkg[e] == pkg[f] and any(o == f for o, _ in allnames.get((pkg[f], dd["n"]), [])):
                        continue        # its own
                    if ok or r.random() < .05:
                        refs.append(ref)
    for f in range(nf):
        files[f]["text"] = vis_text(files[f], decls[f], [x for x in refs if x["file"] == f + 1], inits[f], f == nf - 1, r)
    return files, merged, inits, decls, refs


def sees(files, pkg, f, e):
    u = files[f]["uses"]
    return '"f%d"' % e in u or pkg[e] in u


def vis_text(f, decls, refs, init, last, r):
    def value(x):
        q = "" if x["q"] == (f["pkg"] or "") else x["q"] + "."
        n = q + x["n"]
        return {"const": n, "var": n, "fn": n + "()", "gen": n + "((0 : int))", "type": "sizeof(%s)" % n,
                "tag": "{a : %s; match a; | `%sT%s val: -> val; | `%sN%s: -> 0; ;;}((`%sT%s 77 : %s))" % (n, q, x["n"], q, x["n"], q, x["n"], n)}[x["kind"]]
    out = ["extern const obs : (x : uint64 -> void)\n"]
    out = ["use %s\n" % u for u in f["uses"]] + out
    exp, body = [], []
    for d in decls:
        n, v, k = d["n"], d["v"], d["kind"]
        a = "pkglocal " if d["vis"] == "pkglocal" else ""
        tx, pr = {"const": ("const %s : uint64 = %d\n" % (n, v), "const %s : uint64\n" % n),
                  "var": ("var %s : uint64 = %d\n" % (n, v), "var %s : uint64\n" % n),
                  "fn": ("const %s = {-> uint64\n\t-> %d\n}\n" % (n, v), "const %s : (-> uint64)\n" % n),
                  "gen": ("generic %s = {x : @a -> uint64\n\t-> %d\n}\n" % (n, v), "generic %s : (x : @a -> uint64)\n" % n),
                  "type": ("type %s = struct\n\tb : byte[%d]\n;;\n" % (n, v), None),
                  "tag": ("type %s = union\n\t`T%s uint64\n\t`N%s\n;;\n" % (n, n, n), None)}[k]
        if d["vis"] == "private":
            body.append(tx)
        elif pr and r.random() < .5:
            exp.append(a + pr)
            body.append(re.sub(r"^(\w+ \w+) : uint64", r"\1", tx) if k in ("const", "var") else tx)
        else:
            exp.append(a + tx)
    if f["pkg"]:
        out.append("pkg %s =\n%s;;\n" % (f["pkg"], "".join("\t%s\n" % l for x in exp for l in x.rstrip("\n").split("\n"))))
    fn = "".join("\tobs(%s)\n" % value(x) for x in refs)
    if last:
        body.append("const main = {\n%s}\n" % fn)
    elif fn:
        body.append("const body%s = {\n%s}\n" % (f["name"], fn))
    if init:
        body.append("const priv = {-> uint64\n\t-> %d\n}\nconst __init__ = {\n\tobs(priv())\n}\n" % init)
    return "".join(out + body)


def visibility(c, pk):
    cases = [vis_case(c.rng) for _ in range(c.n(150, 3000))]

    def one(k):
        files, merged, inits, decls, refs = cases[k]
        try:
            exe = build(c, c.path("vis", "v%d" % k), files, merged, False)
        except Failed as e:
            return e.args[0], e.args[1], []
        end, out = myrrun.run_test(c, exe, 0)
        if end != "ok" and end != 0 and end != "exit":
            pass
        return "accept", "", out

    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(one, range(len(cases))))
    rows, src = [r for r, *_ in pk], [(f, m, o) for _, f, m, o in pk]
    for (files, merged, inits, decls, refs), (g, msg, out) in zip(cases, got):
        r = prow(files, merged, inits, refs, decls)
        v = [sum(l << (16 * j) for j, l in enumerate(o)) for o in out]
        m = 0
        while m < len(v) and v[m] in inits and v[m]:
            m += 1
        r.update(got=g, inits=v[:m], ran=g == "accept", out=v[m:])
        rows.append(r)
        src.append((files, merged, msg or v))
    c.extra["verdicts"] = {x: sum(1 for g, *_ in got if g == x) for x in {g for g, *_ in got}}
    c.note(c.extra["verdicts"])
    r = c.tlc("Packages", data={"packages.ndjson": rows}, invs=["Accepted"], xss="64m")
    c.traces += len(rows)
    if not r["ok"]:
        t = int(re.search(r"/\\ t = (\d+)", r["state"]).group(1)) - 1
        f, m, o = src[t]
        c.violation("names or initialisers across files: verdict %s" % rows[t]["got"], "refs %s\ninits %s\n%s\nspecification: %s\n%s" % (
            rows[t]["refs"], rows[t]["inits"], o, r["state"][:300], listing(f, m)))


def check(c):
    c.build()
    aliases(c)
    myrrun.helper(c)
    pk = split_programs(c)
    visibility(c, pk)


if __name__ == "__main__":
    vlib.main(check, "L12")
