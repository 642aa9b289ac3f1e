"""Closures: what they capture, what they share, and what stays private."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from myrast import *
from myclos import CGen
from myrrun import run_progs


# what is not copied is not zero by chance
FDUP = """const scrub = {
	for var n = 8; n <= 256; n += 8
		var s : byte[:] = std.slalloc(n)
		for var i = 0; i < n; i++
			s[i] = 0xa5
		;;
		std.slfree(s)
	;;
}
generic fdup = {f : @f -> @f :: function @f
	scrub()
	-> std.fndup(f)
}
"""


def program(rng, ntests=6):
    g = CGen(rng, tys=rng.sample(INTNAMES, rng.choice((2, 3, 4))))
    g.prog.extra = ["use std\n", FDUP]
    g.prog.libs = True
    for t in g.tys + [BOOL]:
        g.eff(t)
    for _ in range(2):
        g.iterable()
        g.disposable()
    g.globals_()

    def one(k):
        g.fns, g.hofs, g.makers = [], [], []
        g.fcost, g.safe = {}, set()
        for _ in range(2):
            g.hof()
            g.maker()
        fs = [g.function(n=g.r.randint(4, 8)) for _ in range(g.r.choice((1, 1, 2)))]
        return g.calltest(fs)
    g.prog.owned(one, ntests)
    return g.prog


def check(c):
    c.build()
    run_progs(c, [program(c.rng) for _ in range(c.n(40, 400))])


if __name__ == "__main__":
    vlib.main(check, "L06")
