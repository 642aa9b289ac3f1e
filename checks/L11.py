"""Generics and traits: the code for the type at hand."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from mygen import LGen
from mygen import params, subst
from myrast import arr, ptr, tup, sl, term
from myrrun import run_progs
from L04 import compile_all


def program(rng, ntests=6):
    while True:
        try:
            return attempt(random.Random(rng.random()), ntests)
        except ValueError as e:      # nothing of a type it has chosen can be written
            if not str(e).startswith("cannot make"):
                raise


def attempt(rng, ntests):
    g = LGen(rng)
    g.recs, g.els, g.swaps = [], [], []
    g.prog.extra = ["use std\n"]
    g.prog.libs = True
    g.setup()
    g.prog.owned(g.test, ntests)
    return g


def demand(g, k):
    """a function that needs a trait of a type: (row, source)"""
    r = g.r
    trs = [x for x in g.traits if "id" in x.kinds and x.impls]
    if not trs:
        return None
    tr = r.choice(trs)
    f = dict(tr.fns)["id"]
    t = wanted(g, tr)
    pre, bounds, dem = [], {}, [{"tr": tr.name, "y": term(t)}]
    x = r.random()
    if x < .35:
        e = "%s(p#)" % f
    else:
        pre.append("generic want = {x : @q -> uint64 :: %s @q\n\t-> %s(x)\n}\n" % (tr.name, f))
        e = "want(p#)"
        if x < .6:
            b = [tr.name]
            if x < .45 and not any(i.pat.kind == "param" for i in tr.impls):
                # the body of a generic has only the traits it asks for
                b = [y.name for y in g.traits if y is not tr][:1] if r.random() < .5 else r.choice((["numeric"], ["integral"], []))
                bounds = {"@r": b}
                dem = [{"tr": y, "y": term(t)} for y in b] + [{"tr": tr.name, "y": ["@r"]}]
            pre.append("generic wont = {x : @r -> uint64%s\n\t-> want(x)\n}\n" % (" :: %s @r" % ", ".join(b) if b else ""))
            e = "wont(p#)"
    src = "".join(pre) + "const main = {\n\tvar p : %s#\n\n\tp = (0 : %s#)\n\tobs(%s)\n}\n" % (t.txt(), t.txt(), e)
    return {"prog": k + 1, "bounds": bounds or {"": []}, "demands": dem}, src


def wanted(g, tr):
    """a type near those that have the trait"""
    r = g.r
    if r.random() < .25:
        return g.cty(2)
    i = r.choice(tr.impls)
    have = [j.pat for j in tr.impls if not params(j.pat)]
    t = subst(i.pat, {p: r.choice(have) if have and r.random() < .6 else g.cty(1) for p in i.ps})
    if r.random() < .3:
        t = r.choice((arr(t, r.randint(1, 3)), ptr(t), tup(t, g.scalar()), sl(t)))
    return t


def demands(c, gens):
    rows, srcs = [], []
    for k, g in enumerate(gens):
        base = g.prog.text(only=[])
        base = base[:base.index("const main")]
        for _ in range(c.n(8, 16)):
            d = demand(g, k)
            if not d:
                break
            row, src = d
            rows.append(row)
            srcs.append(base + src)
    got = compile_all(c, srcs, libs=True)
    for row, (v, _) in zip(rows, got):
        row["got"] = v
    c.extra["demands"] = {v: sum(1 for r in rows if r["got"] == v) for v in {r["got"] for r in rows}}
    c.note(c.extra["demands"])
    pj = [g.prog.json() for g in gens]
    for p in pj:
        p["fns"], p["globals"] = {}, []
    r = c.tlc("Demand", data={"traces.ndjson": rows, "progs.ndjson": pj}, invs=["Accepted"], xss="256m")
    c.traces += len(rows)
    if not r["ok"]:
        i = int(re.search(r"/\\ t = (\d+)", r["state"]).group(1)) - 1
        c.violation("a demand for a trait: the compiler's verdict is %s" % got[i][0], "demands %s\nbounds %s\ncompiler: %s\nspecification: %s\nsource:\n%s" % (
            rows[i]["demands"], rows[i]["bounds"], got[i][1].decode("utf8", "replace")[:1000], r["state"][:500], srcs[i]))


def check(c):
    c.build()
    gens = [program(c.rng) for _ in range(c.n(60, 600))]
    run_progs(c, [g.prog for g in gens])
    demands(c, gens)


if __name__ == "__main__":
    vlib.main(check, "L11")
