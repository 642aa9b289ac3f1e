"""Match statements and filtering loops: the first matching arm, its bindings."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from myrast import *
from myrgen import Gen
from myrrun import run_progs


class G3(Gen):
    def unit(self):
        """a matching function and the values to try"""
        r = self.r
        for _ in range(20):
            t = self.ty(3, ptrs=True, strs=True)
            if t.kind not in ("int", "bool") or r.random() < .3:
                break
        arms = self.arms(t, r.choice((1, 2, 3, 4, 6, 9)), d=r.choice((2, 3, 4)))
        body, vals = [], []
        for i, (p, binds, ws) in enumerate(arms):
            b = [obs(ilit(i + 1, U64))]
            for n, bt in binds:
                b += self.show(var(n, bt))
            if binds and r.random() < .3:
                # the binding is a variable of its own
                n, bt = r.choice(binds)
                if bt.kind == "int":
                    b.append(inc(var(n, bt)))
                    b.append(obs(var(n, bt)))
                    b += self.show(var("v", t))
            if r.random() < .1:
                b.append(ret(ilit(90 + i, U64)))
            body.append((p, b))
            vals += ws
        vals += [self.value(t) for _ in range(5)]
        f = self.name("m")
        self.prog.fns.append(Fn(f, [("v", t)], U64, [match(var("v", t), body), ret(ilit(9, U64))]))
        return f, t, vals

    def loop(self):
        r = self.r
        t = self.ty(2, strs=True)
        binds = []
        p, pv = self.pat(t, 3, binds, wild=0)
        vs = [self.value(t) for _ in range(r.randint(1, 6))] + [self.witness(t, pv) for _ in range(2)]
        r.shuffle(vs)
        pre = []
        a = self.newvar(arr(t, len(vs)), pre, tuple(vs))
        seq = a if r.random() < .5 else slice_(a, None, None)
        b = [obs(ilit(7, U64))]
        for n, bt in binds:
            b += self.show(var(n, bt))
        return pre + [each(p, seq, b), obs(ilit(8, U64))]

    def test(self, k):
        f, t, vals = self.unit()
        out = []
        for v in vals:
            pre = []
            x = self.newvar(t, pre, v)
            out += pre + [obs(call(f, [x], U64))]
        if self.r.random() < .5:
            out += self.loop()
        return out


def check(c):
    c.build(libs=False)
    progs = []
    for _ in range(c.n(24, 300)):
        g = G3(c.rng)
        g.konst()
        g.prog.owned(g.test, 20)
        progs.append(g.prog)
    run_progs(c, progs)


if __name__ == "__main__":
    vlib.main(check, "L03")
