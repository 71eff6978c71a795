"""Infrastructure of the checks: build drivers from /repo's working tree, run them, run TLC,
collect coverage, report violations, write the evidence file."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
GUARD = "LEARNTA_VERIF_HOOKS"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, os.cpu_count() or 2)


class HarnessError(Exception):
    pass


class Check:
    def __init__(self, pid, level="model_checking"):
        self.id, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.violations = [], [], []
        self.extra = {}
        self.known = load_known(pid)
        self.known_hit = {}
        self.budget = float(os.environ.get("VERIF_BUDGET", "780" if self.tier == "quick" else "6000"))

    thorough = property(lambda self: self.tier == "thorough")

    def log(self, *a):
        print(f"[{self.id} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def path(self, *p):
        return os.path.join(self.work, *p)

    # ------------------------------------------------------------ building
    def build(self, *drivers, hooks=True, flags=()):
        """Compile the library sources and the drivers from the working tree."""
        bdir = os.environ.get("VERIF_BUILD_DIR") or self.path("build")
        os.makedirs(bdir, exist_ok=True)
        base = ["g++", "-std=c++17", "-O1", "-g0", "-w", "-DBOOST_LOG_DYN_LINK=1", f"-I{REPO}/include",
                f"-I{REPO}/examples", "-I/usr/include/eigen3", f"-I{HARNESS}", *flags]
        if hooks:
            base.append("-D" + GUARD)
        srcs = sorted(os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cc"))
        jobs = [(s, os.path.join(bdir, "lib_" + os.path.basename(s) + ".o")) for s in srcs]
        jobs += [(os.path.join(HARNESS, d + ".cc"), os.path.join(bdir, d + ".o")) for d in drivers]
        # longest first
        jobs.sort(key=lambda j: j[0] not in [os.path.join(HARNESS, d + ".cc") for d in drivers])
        stamp = tree_hash()
        fresh = os.path.join(bdir, "stamp")
        cached = os.path.exists(fresh) and open(fresh).read() == stamp

        def cc(job):
            src, obj = job
            if cached and os.path.exists(obj):
                return None
            r = subprocess.run(base + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return (src, r.stdout) if r.returncode else None

        if not cached:
            for f in os.listdir(bdir):
                if f.endswith(".o"):
                    os.remove(os.path.join(bdir, f))
        with ThreadPoolExecutor(NPROC) as ex:
            bad = [b for b in ex.map(cc, jobs) if b]
        if bad:
            raise HarnessError("does not compile: " + bad[0][0] + "\n" + bad[0][1][-3000:])
        lib = [o for s, o in jobs if s in srcs]
        for d in drivers:
            r = subprocess.run(["g++", os.path.join(bdir, d + ".o"), *lib, "-o", os.path.join(bdir, d), "-lboost_log",
                                "-lboost_thread", "-lboost_system", "-pthread"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise HarnessError("does not link: " + d + "\n" + r.stdout[-3000:])
        open(fresh, "w").write(stamp)
        self.bdir = bdir
        self.log("built", *drivers)

    def build_examples(self, names, flags=("-O1", "-DNDEBUG")):
        """Compile the shipped learners from the working tree, as in a release build."""
        bdir = self.path("examples")
        os.makedirs(bdir, exist_ok=True)
        base = ["g++", "-std=c++17", "-g0", "-w", "-DBOOST_LOG_DYN_LINK=1", f"-I{REPO}/include", f"-I{REPO}/examples",
                "-I/usr/include/eigen3", *flags]
        src = os.path.join(REPO, "src")
        lib = [(os.path.join(src, f), os.path.join(bdir, "lib_" + f + ".o")) for f in sorted(os.listdir(src)) if f.endswith(".cc")]
        jobs = [(os.path.join(REPO, "examples", n + ".cc"), os.path.join(bdir, n + ".o")) for n in names] + lib

        def run(cmd):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return (cmd[-1], r.stdout) if r.returncode else None
        with ThreadPoolExecutor(NPROC) as ex:
            bad = [b for b in ex.map(lambda j: run(base + ["-c", j[0], "-o", j[1]]), jobs) if b]
            bad = bad or [b for b in ex.map(lambda n: run(["g++", os.path.join(bdir, n + ".o"), *[o for _, o in lib], "-lboost_log",
                          "-lboost_thread", "-lboost_system", "-pthread", "-o", os.path.join(bdir, n)]), names) if b]
        if bad:
            raise HarnessError("does not compile: " + bad[0][0] + "\n" + bad[0][1][-3000:])
        self.log("built", *names)
        return bdir

    def drive(self, driver, *args, timeout=None, stdin=None, env=None):
        """Run a driver; returns its standard output. The driver is expected to survive failing cases."""
        timeout = timeout or max(60, self.budget - (time.time() - self.t0))
        e = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, **(env or {}))
        cmd = [os.path.join(self.bdir, driver), *map(str, args)]
        if aslr_off():
            cmd = ["setarch", "-R"] + cmd
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               timeout=timeout, env=e, cwd=self.work, input=stdin)
        except subprocess.TimeoutExpired:
            raise HarnessError(f"driver {driver} did not end within {timeout:.0f} s")
        if r.returncode != 0:
            raise HarnessError(f"driver {driver} ended with {r.returncode}: {r.stderr[-1500:]}")
        return r.stdout

    # ------------------------------------------------------------ TLC
    def tlc(self, spec, cfg=None, env=None, workers=None, timeout=None, args=(), jvm=(), heap=None):
        """Run TLC on spec/<spec>.tla; returns a TlcResult."""
        cfg = cfg or spec
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        timeout = timeout or max(60, self.budget + 60 - (time.time() - self.t0))
        cmd = ["java", "-XX:+UseParallelGC", "-Xss32m", *( [f"-Xmx{heap}"] if heap else []), *jvm, "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers or NPROC), "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, cfg + ".cfg"), *args, os.path.join(SPEC, spec + ".tla")]
        e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               timeout=timeout, env=e, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise HarnessError(f"TLC on {spec}/{cfg} did not end within {timeout:.0f} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        res = TlcResult(r.returncode, r.stdout)
        if res.error:
            raise HarnessError(f"TLC on {spec}/{cfg}: {res.error}\n{r.stdout[-3000:]}")
        self.states += res.distinct
        self.transitions += res.generated
        return res

    # ------------------------------------------------------------ reporting
    def violation(self, key, detail, replay=None):
        """key identifies the failing input/history; replay is a JSON-able object describing it."""
        for pat, what in self.known:
            if re.fullmatch(pat, key):
                self.known_hit.setdefault(pat, what)
                return
        self.violations.append((key, detail, replay))

    def finish(self):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        rd = os.path.join(d, "replay")
        lines = []
        for n, (key, detail, replay) in enumerate(self.violations[:5]):
            os.makedirs(rd, exist_ok=True)
            f = os.path.join(rd, f"{self.id}-{n}.json")
            with open(f, "w") as h:
                json.dump(dict(property=self.id, key=key, detail=detail, replay=replay, seed=self.seed, tier=self.tier), h, indent=1)
            lines.append(f"VIOLATION property={self.id} replay={f}")
            self.log("violated by", key, "-", str(detail)[:600])
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:6], **self.extra)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(d, self.id + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        for pat, what in self.known:
            if pat in self.known_hit:
                print(f"KNOWN-FINDING: property={self.id} {what}")
        self.log(f"states={self.states} transitions={self.transitions} traces={self.traces} violations={len(self.violations)}")
        shutil.rmtree(self.work, ignore_errors=True)
        for l in lines:
            print(l, flush=True)
        return 1 if self.violations else 0


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        ms = re.findall(r"([\d,]+) states generated[^\n]*?([\d,]+) distinct states", out)
        g = ms[-1] if ms else ("0", "0")
        self.generated, self.distinct = (int(x.replace(",", "")) for x in g)
        self.violated = re.findall(r"Invariant (\S+) is violated", out)
        self.ok = "Model checking completed. No error has been found." in out
        self.rejects = [l for l in out.splitlines() if l.startswith('<<"REJECT"')]
        self.trace = _trace(out)
        self.error = None
        if not self.ok and not self.violated:
            if re.search(r"Postcondition .* (is )?(violated|false)", out) or "POSTCONDITION" in out and "violated" in out:
                self.violated = ["postcondition"]
            elif "Temporal properties were violated" in out or "is violated" in out:
                self.violated = ["property"]
            elif "Deadlock reached" in out:
                self.violated = ["deadlock"]
            else:
                m = re.search(r"(Error: .*)", out)
                self.error = "no result: " + (m.group(1) if m else f"exit {rc}")


def _trace(out):
    """The states of the first counterexample, as text blocks."""
    blocks = re.findall(r"^State \d+: [^\n]*\n((?:(?!^State |^\n).*\n?)*)", out, re.M)
    return [b.strip() for b in blocks]


def load_known(pid):
    """known_findings.txt: lines 'known: property=<id> key=<regex> <what fails>'; 'fixed:' lines suppress nothing."""
    f = os.path.join(ROOT, "known_findings.txt")
    res = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "examples"), HARNESS):
        for dp, dn, fn in sorted(os.walk(base)):
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if os.path.isfile(p):
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


_aslr = None


def aslr_off():
    global _aslr
    if _aslr is None:
        try:
            _aslr = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            _aslr = False
    return _aslr


def read_ndjson(path):
    out = []
    with open(path, errors="replace") as f:
        for l in f:
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def write_ndjson(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x) + "\n")


def main(check_fn, pid, **kw):
    c = Check(pid, **kw)
    try:
        check_fn(c)
        rc = c.finish()
    except HarnessError as e:
        print(f"ERROR of the check {pid}: {e}", file=sys.stderr, flush=True)
        shutil.rmtree(c.work, ignore_errors=True)
        rc = 2
    sys.exit(rc)
