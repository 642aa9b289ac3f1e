"""Compile generated programs with the real compiler, run every test in a
process of its own, and have TLC compare with spec/Myr.tla."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib

HELPER = r'''
typedef unsigned long u64;
static long sc(long n,long a,long b,long c){long r;__asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c):"rcx","r11","memory");return r;}
void obs(u64 x){char b[17];int i;for(i=0;i<16;i++){b[i]="0123456789abcdef"[(x>>(60-4*i))&15];}b[16]='\n';sc(1,1,(long)b,17);}
'''


def helper(c):
    o = c.path("obs.o")
    if not os.path.exists(o):
        with open(c.path("obs.c"), "w") as f:
            f.write(HELPER)
        rc, out = c.run(["gcc", "-O1", "-ffreestanding", "-fno-stack-protector", "-mno-sse", "-fcf-protection=none",
                         "-c", "-o", o, c.path("obs.c")])
        if rc:
            raise vlib.CheckError("gcc: %s" % out)
    return o


def compile_prog(c, prog, name, only=None, text=None):
    """returns (path or None, compiler output)"""
    src = c.path("progs", name + ".myr")
    os.makedirs(os.path.dirname(src), exist_ok=True)
    with open(src, "w") as f:
        f.write(text if text is not None else prog.text(only))
    exe = src[:-4]
    for x in (exe + ".o", exe):
        if os.path.exists(x):
            os.unlink(x)
    rc, out = c.mc(src, incs=getattr(prog, "libs", False), timeout=25)
    out = out.decode("utf8", "replace")
    if rc != 0 or not os.path.exists(exe + ".o"):
        return None, "6m: status %s\n%s" % (rc, out)
    rc, out = c.run(["ld", "--no-warnings", "-o", exe, os.path.join(c.src, "rt/_myrrt.o"), exe + ".o", helper(c)] + stdlibs(c))
    if rc != 0:
        return None, "ld: %s" % out.decode("utf8", "replace")
    return exe, ""


def stdlibs(c):
    r = []
    for l in ("std", "sys"):
        a = os.path.join(c.src, "obj/lib/%s/lib%s.a" % (l, l))
        if os.path.exists(a):
            r.append(a)
    return r


def parse_out(out):
    vals, junk = [], b""
    for line in out.split(b"\n"):
        if len(line) == 16 and all(x in b"0123456789abcdef" for x in line):
            v = int(line, 16)
            vals.append([(v >> (16 * i)) & 65535 for i in range(4)])
        elif line:
            junk += line + b"\n"
    return vals, junk


def run_test(c, exe, i):
    try:
        p = subprocess.run([exe, str(i)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                           timeout=20, env=c.env(), cwd=c.dir)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return "timeout", parse_out((x.stdout or b"")[:200000])[0][:200]
    # normal end, an abort of the runtime's bounds check (it kills itself), or something else
    end = "ok" if rc == 0 else "trap" if rc == -6 else "exit %s" % rc
    return end, parse_out(out[:2000000])[0]


def spec_out(state):
    """the specification's output in a TLC state dump"""
    import re
    m = re.search(r"\bout \|->\s*(<<.*?>>)\s*,\s*\w+ \|->", state or "", re.S)
    if not m:
        m = re.search(r"\bout \|->\s*(<<.*?>>)\s*\]", state or "", re.S)
    try:
        return json.loads(m.group(1).replace("<<", "[").replace(">>", "]"))
    except (AttributeError, ValueError):
        return None


def hexes(vs):
    return ["%x" % sum(l << (16 * i) for i, l in enumerate(v)) for v in vs]


def first_diff(state, row):
    so = spec_out(state)
    if so is None:
        return "?"
    ro = row["out"]
    k = next((i for i in range(max(len(so), len(ro))) if i >= len(so) or i >= len(ro) or so[i][:len(so[i])] != ro[i][:len(so[i])]), None)
    if k is None:
        return "none in the outputs; ends: program %s" % row["end"]
    return "output %d: specification %s, program %s; before: %s" % (
        k + 1, hexes(so[k:k + 3]), hexes(ro[k:k + 3]) or row["end"], [int(x, 16) for x in hexes(ro[max(0, k - 6):k])])


def run_progs(c, progs, module="MyrTrace", maxout=4000, **kw):
    """progs: list of Prog.  Compiles, runs, validates; records violations."""
    def one(k):
        p = progs[k]
        exe, err = compile_prog(c, p, "p%d" % k)
        bad = []
        if exe is None:
            # find the test(s) that cannot be compiled; run the others
            good = []
            for i in range(len(p.tests)):
                x, e = compile_prog(c, p, "p%d_%d" % (k, i), only=i)
                if x is None:
                    bad.append((i, e))
                else:
                    good.append(i)
            exe = None
            if good and bad:
                exe, _ = compile_prog(c, p, "p%dg" % k, only=good)
            if not bad:
                bad.append((None, err))
            if exe is None:
                return k, None, bad, err
        else:
            good = range(len(p.tests))
        res = {i: run_test(c, exe, i) for i in good}
        return k, res, bad, err
    rows, ptrs, pj = [], [], []
    helper(c)
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(one, range(len(progs))))
    for k, res, bad, err in results:
        p = progs[k]
        pj.append(p.json())
        for i, e in bad:
            c.violation("a valid program is not compiled (program %d test %s)" % (k, i),
                        e[:1500] + "\n" + p.text(only=i)[:20000])
        if res is None:
            continue
        p.reported = [out for _, (_, out) in sorted(res.items())]
        for i, (end, out) in res.items():
            rows.append({"prog": k + 1, "body": [s.j for s in p.tests[i]], "out": out[:maxout], "end": end})
            ptrs.append((k, i))
    c.note("compiled %d programs, ran %d tests" % (len(progs), len(rows)))
    if not rows:
        return
    if len(c.samples) < 2:
        k, i = ptrs[len(ptrs) // 3]
        c.sample({"source": "\n".join(l for s in progs[k].tests[i] for l in s.lines)[:1500],
                  "observed": rows[len(ptrs) // 3]["out"][:10], "end": rows[len(ptrs) // 3]["end"]})
    kw.setdefault("xss", "512m")
    left = rows
    for attempt in range(1):
        r = c.tlc(module, data={"traces.ndjson": left, "progs.ndjson": pj}, invs=["Accepted"], **kw)
        c.traces += len(rows)
        if r["ok"]:
            return
        import re
        m = re.search(r"/\\ t = (\d+)", r["state"] or "")
        l = re.search(r"/\\ l = (\d+)", r["state"] or "")
        if not m:
            raise vlib.CheckError("cannot find the rejected trace:\n" + r["out"][-3000:])
        k, i = ptrs[int(m.group(1)) - 1]
        row = rows[int(m.group(1)) - 1]
        c.violation("compiled program differs from the semantics: program %d test %d near statement %s" % (k, i, l.group(1) if l else "?"),
                    "first difference: %s\ntest:\n%s\n\nreported: %s\nend: %s\nspecification state: %s\n\nwhole program:\n%s" % (
                        first_diff(r["state"], row), "\n".join(x for s in progs[k].tests[i] for x in s.lines), row["out"][:60], row["end"],
                        (r["state"] or "")[-3000:], progs[k].text(only=i)[:30000]))
