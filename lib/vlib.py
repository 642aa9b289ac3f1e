"""Common machinery of the checks: build /repo in a scratch copy, compile Myrddin
drivers against it, run TLC on a specification and the recorded traces, and
write the evidence file / violation report.  Stdlib only."""
import atexit, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIBS = ["sys", "std", "bio", "regex", "thread", "date", "escfmt", "fileutil",
        "inifile", "iter", "json", "math", "testr", "http", "crypto", "flate"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        os.chmod(self.dir, 0o755)
        self.src = None
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self._tlcn = 0
        atexit.register(self._clean)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))

    def _clean(self):
        if os.environ.get("VERIF_KEEP"):
            log("kept", self.dir)
            return
        subprocess.run(["chmod", "-R", "u+rwx", self.dir], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.dir, ignore_errors=True)

    def note(self, *a):
        log("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build
    def copy_repo(self, dst):
        files = subprocess.run(
            ["git", "-c", "safe.directory=*", "-c", "core.quotepath=off", "-C", REPO,
             "ls-files", "-co", "--exclude-standard", "-z"],
            check=True, stdout=subprocess.PIPE).stdout.split(b"\0")
        files = [f for f in files if f and os.path.lexists(os.path.join(REPO.encode(), f))]
        os.makedirs(dst)
        p = subprocess.run(["tar", "-C", REPO, "--null", "-T", "-", "-cf", self.path("src.tar")],
                           input=b"\0".join(files))
        if p.returncode:
            raise CheckError("cannot copy %s" % REPO)
        subprocess.run(["tar", "-C", dst, "-xf", self.path("src.tar")], check=True)
        os.unlink(self.path("src.tar"))

    def env(self):
        e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             "HOME": self.dir, "LC_ALL": "C.UTF-8", "TMPDIR": self.tmpdir()}
        return e

    def tmpdir(self):
        t = self.path("tmp")
        os.makedirs(t, exist_ok=True)
        return t

    def build(self, libs=True):
        """Build /repo's working tree in the scratch directory.  libs=False
        builds the C tool chain and the runtime only."""
        if os.environ.get("VERIF_PREBUILT"):    # development only
            self.src = os.environ["VERIF_PREBUILT"]
            return
        self.src = self.path("src")
        self.copy_repo(self.src)
        e = self.env()
        if os.environ.get("VERIF_CFLAGS"):
            e["CFLAGS"] = os.environ["VERIF_CFLAGS"]
        cmd = "./configure --prefix=/usr/local && make -j8 " + ("bootstrap" if libs else "subdirs")
        p = subprocess.run(cmd, shell=True, cwd=self.src, env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        self.buildlog = p.stdout.decode("utf8", "replace")
        need = ["6/6m", "muse/muse", "rt/_myrrt.o"]
        if libs:
            need += ["obj/lib/%s/lib%s.a" % (l, l) for l in LIBS] + ["obj/mbld/mbld"]
        for f in need:
            if not os.path.exists(os.path.join(self.src, f)):
                raise CheckError("build of /repo failed: no %s\n%s" % (f, self.buildlog[-3000:]))
        self.note("built /repo")

    def incs(self):
        r = []
        for l in LIBS:
            r += ["-I", os.path.join(self.src, "obj/lib", l)]
        return r

    def mc(self, src, *flags, cwd=None, incs=True, timeout=60):
        """Run the compiler on one file. Returns (rc, output)."""
        cmd = [os.path.join(self.src, "6/6m")] + (self.incs() if incs else []) + list(flags) + [src]
        return self.run(cmd, cwd=cwd or os.path.dirname(src) or self.dir, timeout=timeout)

    def run(self, cmd, cwd=None, timeout=120, input=None, env=None):
        """Returns (rc, stdout+stderr as bytes); rc is -signal for a signal and 'timeout'."""
        e = self.env()
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, cwd=cwd or self.dir, env=e, input=input,
                               stdin=subprocess.DEVNULL if input is None else None,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            return "timeout", x.stdout or b""
        return p.returncode, p.stdout

    def driver(self, name, files, libs=True):
        """Compile and link a single-file driver program made of the given
        /verif/drivers files (concatenated).  Returns the path of the program."""
        d = self.path("drv-" + name)
        os.makedirs(d, exist_ok=True)
        text = ""
        for f in files:
            if "\n" in f:
                text += f
            else:
                with open(os.path.join(VERIF, "drivers", f)) as fh:
                    text += fh.read()
        src = os.path.join(d, name + ".myr")
        with open(src, "w") as fh:
            fh.write(text)
        rc, out = self.mc(src, timeout=120)
        if rc != 0:
            raise CheckError("driver %s does not compile (%s):\n%s" % (name, rc, out.decode("utf8", "replace")[-3000:]))
        exe = os.path.join(d, name)
        self.link(exe, [exe + ".o"])
        return exe

    def link(self, exe, objs, extra=()):
        ars = [os.path.join(self.src, "obj/lib", l, "lib%s.a" % l) for l in LIBS] if \
            os.path.isdir(os.path.join(self.src, "obj/lib")) else []
        ars = [a for a in ars if os.path.exists(a)]
        cmd = ["ld", "--gc-sections", "-o", exe, os.path.join(self.src, "rt/_myrrt.o")] + list(objs) + \
            ["--start-group"] + ars + ["--end-group"] + list(extra)
        rc, out = self.run(cmd)
        if rc != 0:
            raise CheckError("link of %s failed:\n%s" % (exe, out.decode("utf8", "replace")[-3000:]))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, data=None, consts=None, workers=8, timeout=600, deadlock=False,
            extra=(), xss="64m", heap=None, count=True, invs=None, spec=None, postcondition=None,
            retry=True, subst=None):
        """Run TLC on spec/<module>.tla.
        cfg: name of a committed .cfg file, or None to generate one from spec/invs/consts.
        data: {filename: list of JSON values} written as ndjson next to the module.
        Returns dict(ok, out, err, state) - err is None / 'invariant' / 'deadlock' / 'property'."""
        self._tlcn += 1
        d = self.path("tlc%d" % self._tlcn)
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        for fn, rows in (data or {}).items():
            with open(os.path.join(d, fn), "w") as fh:
                for r in rows:
                    fh.write(json.dumps(r, separators=(",", ":")))
                    fh.write("\n")
        if cfg is None:
            cfg = "gen.cfg"
            with open(os.path.join(d, cfg), "w") as fh:
                fh.write("SPECIFICATION %s\n" % (spec or "Spec"))
                for i in invs or []:
                    fh.write("INVARIANT %s\n" % i)
                for k, v in (consts or {}).items():
                    fh.write("CONSTANT %s %s\n" % (k, v if v.startswith("<-") else "= " + v))
                if postcondition:
                    fh.write("POSTCONDITION %s\n" % postcondition)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss" + xss]
        if heap:
            cmd.append("-Xmx" + heap)
        else:
            cmd.append("-Xmx8g")
        cmd += ["-Djava.io.tmpdir=" + self.tmpdir(), "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers),
                "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-fp", "1"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + ["-config", cfg, module + ".tla"]
        t = time.time()
        rc, out = self.run(cmd, cwd=d, timeout=timeout)
        out = "\n".join(x for x in out.decode("utf8", "replace").split("\n")
                        if not x.startswith(("Parsing file", "Semantic processing")))
        res = {"ok": False, "out": out, "err": None, "rc": rc, "dir": d, "state": None, "wall": time.time() - t}
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            res["generated"] = int(m[-1][0].replace(",", ""))
            res["distinct"] = int(m[-1][1].replace(",", ""))
        if rc == 0 and "No error has been found" in out:
            res["ok"] = True
        elif rc == 0 and "-simulate" in extra:
            res["ok"] = True
        elif "is violated" in out and ("Invariant" in out or "property" in out or "Action property" in out):
            res["err"] = "invariant"
        elif "Deadlock reached" in out:
            res["err"] = "deadlock"
        elif "Temporal properties were violated" in out:
            res["err"] = "property"
        elif "POSTCONDITION" in out and "violated" in out or "Postcondition" in out:
            res["err"] = "postcondition"
        else:
            k = out.find("Error:")
            raise CheckError("TLC failed on %s (rc %s):\n%s\n...\n%s" % (module, rc, out[k:k + 1500], out[-2500:]))
        if res["err"] and retry:
            again = self.tlc_again(cmd, d, timeout)
            if not again:
                raise CheckError("TLC rejection on %s did not repeat:\n%s" % (module, out[-4000:]))
        if count:
            self.states += res.get("distinct", 0)
            self.transitions += res.get("generated", 0)
        if res["err"]:
            parts = re.split(r"\nState \d+: [^\n]*\n", out)
            if len(parts) > 1:
                res["state"] = parts[-1].split("\n\n")[0]
            else:
                k = out.find("is violated by the initial state")
                res["state"] = out[k:k + 20000].split("\n\n")[0].split("\n", 1)[-1] if k >= 0 else None
        self.note("TLC %s: %s, %s states, %.1fs" % (module, res["err"] or "ok", res.get("distinct"), res["wall"]))
        return res

    def tlc_again(self, cmd, d, timeout):
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        rc, out = self.run(cmd, cwd=d, timeout=timeout)
        out = out.decode("utf8", "replace")
        return rc != 0 and "rror" in out and ("violated" in out or "Deadlock" in out)

    def model(self, module, cfg=None, **kw):
        """Design-level model check: must hold. A failure here is a defect of the check."""
        r = self.tlc(module, cfg, retry=False, **kw)
        if not r["ok"]:
            raise CheckError("the specification %s violates its own property:\n%s" % (module, r["out"][-4000:]))
        return r

    def traces_ok(self, module, rows, describe=None, batch=None, fname="traces.ndjson", **kw):
        """Validate recorded traces (one JSON row each) with TLC. The module's
        variables must include t (row number) and l (event number); the state
        that is reported identifies the offending trace.  Returns None or a
        description of the first rejected trace."""
        kw.setdefault("invs", ["Accepted"])
        if not rows:
            raise CheckError("no traces for " + module)
        r = self.tlc(module, data={fname: rows}, **kw)
        self.traces += len(rows)
        if r["ok"]:
            return None
        st = r["state"] or ""
        mt = re.search(r"/\\ t = (\d+)", st)
        ml = re.search(r"/\\ l = (\d+)", st)
        t = int(mt.group(1)) if mt else None
        l = int(ml.group(1)) if ml else None
        return {"t": t, "l": l, "row": rows[t - 1] if t else None, "state": st[:6000], "module": module}

    # -------------------------------------------------------------- verdict
    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def violation(self, what, detail):
        """Record a violation; reported by finish()."""
        self.violations.append((what, detail))

    def finish(self, **coverage):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        cov.update(self.extra)
        cov.update(coverage)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, self.pid + ".json.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.rename(tmp, os.path.join(edir, self.pid + ".json"))
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k), flush=True)
        if self.violations:
            rdir = os.path.join(edir, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.pid + ".txt")
            with open(path, "w") as fh:
                for w, d in self.violations[:20]:
                    fh.write("== %s\n%s\n\n" % (w, d if isinstance(d, str) else json.dumps(d, indent=1)))
            for w, d in self.violations[:5]:
                print("[%s] %s" % (self.pid, w), flush=True)
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            self._clean()
            os._exit(1)
        self.note("held; %d states, %d traces" % (self.states, self.traces))
        self._clean()
        os._exit(0)

    def known_findings(self):
        """Identifiers of this property's findings listed in known-findings.txt:
        lines 'finding: property=<id> key=<key> <text>'."""
        r = {}
        try:
            with open(os.path.join(VERIF, "known-findings.txt")) as fh:
                for line in fh:
                    m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                    if m and m.group(1) == self.pid:
                        r[m.group(2)] = m.group(3).strip()
        except FileNotFoundError:
            pass
        return r


def main(fn, pid):
    """Run fn(check); map failures of the check itself to exit status 2."""
    c = Check(pid)
    try:
        fn(c)
        c.finish()
    except CheckError as e:
        log("[%s] ERROR: %s" % (pid, e))
        c._clean()
        os._exit(2)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        c._clean()
        os._exit(2)
