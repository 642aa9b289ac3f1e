"""Control flow and evaluation order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from myrast import *
from mystmt import SGen
from myrrun import run_progs


def program(rng, ntests=8):
    g = SGen(rng, tys=rng.sample(INTNAMES, rng.choice((2, 3, 4))))
    for t in g.tys + [BOOL]:
        g.eff(t)
    for _ in range(2):
        g.iterable()
        g.disposable()

    def one(k):
        g.fns = []
        fs = [g.function() for _ in range(g.r.choice((1, 2, 2, 3)))]
        return g.calltest(fs)
    g.prog.owned(one, ntests)
    return g.prog


def probes():
    """programs that fail in a known way: {key: program}"""
    g = var("g", U64)
    p = Prog()
    p.globals.append(("g", ilit(1, U64), False))
    p.fns.append(Fn("f", [], U64, [asn(g, ilit(10, U64)), ret(ilit(100, U64))]))
    p.tests.append([obs(bin_("+", g, call("f", [], U64)))])
    return {"operand-read-after-call": p}


def check(c):
    c.build(libs=False)
    run_progs(c, [program(c.rng) for _ in range(c.n(30, 500))])
    listed = c.known_findings()
    for k, p in probes().items():
        n = len(c.violations)
        run_progs(c, [p])
        if len(c.violations) > n and k in listed and p.reported == [[[110, 0, 0, 0]]]:
            del c.violations[n:]
            c.known.append(k + ": " + listed[k])


if __name__ == "__main__":
    vlib.main(check, "L05")
