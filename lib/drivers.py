"""Running the compiled drivers on scripts."""
import subprocess, os, time
import vlib


def run_script(c, exe, lines, timeout=120, env=None, jobs=8, crash_ok=False):
    """Feed script lines to the driver (in parallel chunks); each script line
    yields one output line.  A crash or a hang of the driver on a line is a
    violation (the script is a legal use of the interface): it is re-run alone
    to confirm.  Returns the list of output lines (None where it failed)."""
    n = len(lines)
    outs = [None] * n
    chunks = [list(range(i, n, jobs)) for i in range(jobs)]
    procs = []
    e = c.env()
    e.update(env or {})
    for k, idx in enumerate(chunks):
        if not idx:
            continue
        fin = c.path("in%d" % k)
        fout = c.path("out%d" % k)
        with open(fin, "w") as f:
            for i in idx:
                f.write(lines[i] + "\n")
        p = subprocess.Popen([exe], stdin=open(fin), stdout=open(fout, "wb"), stderr=subprocess.PIPE, env=e, cwd=c.dir)
        procs.append((p, idx, fout))
    deadline = time.time() + timeout
    for p, idx, fout in procs:
        try:
            err = p.communicate(timeout=max(1, deadline - time.time()))[1]
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            err = p.communicate()[1]
            rc = "timeout"
        with open(fout, "rb") as f:
            data = f.read().decode("latin1")
        got = data.split("\n")
        tail = got.pop()          # incomplete last line (empty when complete)
        for i, o in zip(idx, got):
            outs[i] = o
        if (rc != 0 or len(got) < len(idx)) and not crash_ok:
            if len(got) < len(idx):
                bad = idx[len(got)]
                rc2, out2 = c.run([exe], input=(lines[bad] + "\n").encode(), timeout=20, env=env)
                c.violation("driver %s ended with %s on a legal input (alone: %s)" % (os.path.basename(exe), rc, rc2),
                            {"script": lines[bad][:4000], "stderr": err.decode("latin1")[-2000:], "partial": tail[-500:]})
            else:
                c.violation("driver %s ended with %s" % (os.path.basename(exe), rc),
                            {"stderr": err.decode("latin1")[-2000:]})
    return outs
