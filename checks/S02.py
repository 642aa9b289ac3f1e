import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from drivers import run_script

OPS = {"p": "put", "d": "del", "g": "get", "v": "getv", "h": "has", "c": "count", "k": "keys", "i": "iter"}


def histories(c):
    r = c.rng
    hs = []
    # every sequence of puts and deletes of three colliding keys up to a length
    depth = c.n(5, 6)
    for seq in itertools.product(range(6), repeat=depth):
        ops = []
        for i, x in enumerate(seq):
            k = x % 3 + 1
            ops.append(("p", k, i + 1) if x < 3 else ("d", k))
        for k in (1, 2, 3):
            ops.append(("g", k))
        ops.append(("c",))
        ops.append(("k",) if r.random() < .5 else ("i",))
        hs.append((r.choice((0, 0, 1)), 1, ops))
    # random histories with growth, over keys with a few hashes
    for n in range(c.n(500, 4000)):
        kind = r.choice((0, 0, 0, 1, 2, 3))
        nk = r.choice((3, 6, 12, 20, 45))
        mod = r.choice((1, 2, 3, 5, 33, 1000))
        ops = []
        pd = r.choice((.1, .3, .5))
        for i in range(r.choice((20, 60, 120))):
            k = r.randrange(1, nk + 1)
            x = r.random()
            if x < pd * .7:
                ops.append(("d", k))
            elif x < .65:
                ops.append(("p", k, r.randrange(1000)))
            elif x < .75:
                ops.append(("g", k))
            elif x < .82:
                ops.append(("v", k, 1000 + r.randrange(1000)))
            elif x < .88:
                ops.append(("h", k))
            elif x < .92:
                ops.append(("c",))
            elif x < .96:
                ops.append(("k",))
            else:
                ops.append(("i",))
        ops += [("c",), ("k",), ("i",)] + [("g", k) for k in range(1, nk + 1)]
        hs.append((kind, mod, ops))
    # steady churn: a table that stays small while keys come and go
    for n in range(c.n(6, 40)):
        ops = []
        live = []
        for i in range(600):
            ops.append(("p", i, i))
            live.append(i)
            if len(live) > r.choice((1, 3, 12)):
                k = live.pop(0 if n % 2 else -1)
                ops.append(("d", k))
                ops.append(("h", k))
            if i % 50 == 0:
                ops.append(("i",))
        ops += [("c",), ("k",)]
        hs.append((n % 4, r.choice((1, 7, 1000)), ops))
    return hs


def check(c):
    c.model("HtabMC", "HtabMC.cfg")
    c.build()
    with open(os.path.join(vlib.VERIF, "drivers", "htab.myr")) as f:
        head, rest = f.read().split("/*@each*/")
    each, tail = rest.split("/*@end*/")
    for k, ty, un in (("ck", "ckey", "ck"), ("hi", "ckey", "ck"), ("int", "int64", "int"), ("str", "byte[:]", "str")):
        head += each.replace("%K", k).replace("%T", ty).replace("%M", "mk" + k).replace("%U", un)
    exe = c.driver("htab", ["drv.myr", head + tail])
    hs = histories(c)
    lines = []
    for kind, mod, ops in hs:
        lines.append("%d %d %d %s" % (kind, mod, len(ops), " ".join(" ".join(map(str, o)) for o in ops)))
    outs = run_script(c, exe, lines, timeout=40)
    rows = []
    for (kind, mod, ops), out in zip(hs, outs):
        if out is None:
            rows.append([])
            continue
        res = [x.split() for x in out.split(";")]
        evs = []
        ri = 0
        for o in ops:
            e = {"op": OPS[o[0]]}
            if len(o) > 1:
                e["k"] = o[1]
            if len(o) > 2:
                e["v"] = o[2]
            if o[0] not in "pd":
                e["r"] = [int(x) for x in res[ri]] if ri < len(res) - 1 else [-999]
                ri += 1
            evs.append(e)
        rows.append(evs)
    c.sample({"history": rows[1234]})
    bad = c.traces_ok("Htab", rows)
    if bad:
        kind, mod, ops = hs[bad["t"] - 1]
        c.violation("hash table history is not that of a map: event %s" % bad["l"],
                    {"kind": kind, "mod": mod, "event": bad["row"][bad["l"] - 1], "history": bad["row"]})


vlib.main(check, "S02")
