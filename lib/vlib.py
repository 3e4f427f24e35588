"""Common machinery of the checks: scratch directories, builds of /repo's working
tree, TLC runs, evidence and verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 8)
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar"
ENV = dict(os.environ, MALLOC_TRIM_THRESHOLD_="4000000000", MALLOC_MMAP_MAX_="0", MALLOC_TOP_PAD_="67108864",
           LC_ALL="C", CGMFDATA=REPO + "/data", PYTHONHASHSEED="0")
PY = "/opt/vp/venv/bin/python"
if not os.path.exists(PY):
    PY = "python3-vt"

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="cgmfv.")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch


def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    return subprocess.run(cmd, **kw)


def build(asan=False, cli=True, extra=()):
    """library (+ cgmf.x) and the driver, from /repo's working tree; returns a dict of paths"""
    tag = "asan" if asan else "rel"
    b = os.path.join(scratch(), "build-" + tag)
    flags = ["-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS=-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"] \
        if asan else ["-DCMAKE_BUILD_TYPE=Release"]
    r = sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-Dcgmf.tests=OFF"] + flags + list(extra))
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace"))
    r = sh(["ninja", "-C", b])
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[-4000:])
    lib = find(b, "libcgmf.a") or find(b, "libcgmf.so")
    drv = os.path.join(b, "driver")
    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g1"] if asan else []
    r = sh(["g++", "-std=c++14", "-O1"] + san + ["-I" + REPO + "/libcgmf/include", "-I" + os.path.join(b, "libcgmf"),
            VERIF + "/harness/driver.cpp", lib, "-o", drv])
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[-4000:])
    return dict(dir=b, lib=lib, drv=drv, cli=find(b, "cgmf.x"))


def find(d, name):
    for root, _, files in os.walk(d):
        if name in files:
            return os.path.join(root, name)
    return None


def parallel(fn, items, n=NPROC):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(module, cfg=None, files=None, workers=1, extra=(), timeout=600, heap="3g", name=None, tool=None):
    """run TLC on spec/<module>.tla in a scratch directory with the given data files"""
    d = sub("tlc-%s-%s" % (name or module, hashlib.md5(os.urandom(8)).hexdigest()[:6]))
    for f in os.listdir(VERIF + "/spec"):
        if f.endswith(".tla") or f.endswith(".cfg"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    for k, v in (files or {}).items():
        with open(os.path.join(d, k), "w") as fh:
            fh.write(v if isinstance(v, str) else json.dumps(v, separators=(",", ":")))
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + sub("jtmp"), "-XX:TieredStopAtLevel=%d" % (4),
           "-cp", classpath(), "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
           "-config", (cfg or module) + ".cfg", "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    t = time.time()
    try:
        r = sh(cmd, cwd=d, timeout=timeout, env=ENV)
        out, rc = r.stdout.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace") + "\nTIMEOUT", 98
    res = TlcResult()
    res.out, res.rc, res.dir, res.wall = out, rc, d, time.time() - t
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    allm = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if allm:
        res.generated, res.distinct = (int(x.replace(",", "")) for x in allm[-1])
    else:
        m = re.search(r"states generated: (\d+)", out) or re.search(r"The number of states generated: (\d+)", out)
        res.generated = res.distinct = int(m.group(1)) if m else 0
    res.clean = "Model checking completed. No error has been found." in out or ("-simulate" in extra and rc == 0)
    return res


_cp = None


def classpath():
    global _cp
    if _cp is None:
        jars = []
        base = "/opt/veriftools/tla"
        for f in sorted(os.listdir(base)):
            if f.endswith(".jar"):
                jars.append(os.path.join(base, f))
        jars.sort(key=lambda j: 0 if j.endswith("tla2tools.jar") else 1)
        _cp = ":".join(jars)
    return _cp


# ---------------------------------------------------------------- verdicts
class Check:
    """collects what a run covered and how it ended"""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.tier = "thorough" if (len(sys.argv) > 1 and "thorough" in sys.argv[1:]) else "quick"
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []
        self.findings = []
        self.known = load_known()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add_tlc(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += max(0, r.generated)

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, cap=4):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    def finding(self, fid, text):
        """observed a listed known finding"""
        k = [x for x in self.known if x["property"] == self.pid and x["id"] == fid and x["status"] == "known"]
        if not k:
            self.violate("unlisted finding %s: %s" % (fid, text))
            return
        if fid not in [f[0] for f in self.findings]:
            self.findings.append((fid, k[0]["what"]))

    def violate(self, what, data=None):
        self.violations.append((what, data))

    def finish(self):
        rec = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=self.cov,
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump(rec, f, indent=1)
            f.write("\n")
        for fid, what in self.findings:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, fid, what))
        if self.violations:
            os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
            p = "%s/evidence/replay/%s.txt" % (VERIF, self.pid)
            with open(p, "w") as f:
                for what, data in self.violations[:20]:
                    f.write("%s\n" % what)
                    if data is not None:
                        f.write((data if isinstance(data, str) else json.dumps(data, indent=1))[:20000] + "\n")
                    f.write("\n")
            for what, _ in self.violations[:5]:
                print("  " + what[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            sys.stdout.flush()
            sys.exit(1)
        print("OK %s %s: %s" % (self.pid, self.tier, {k: v for k, v in self.cov.items() if isinstance(v, (int, float))}))
        sys.exit(0)


def load_known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


def run_check(pid, body, level="model_checking"):
    """run a check; a tree that does not build is a violation only of nothing: it is reported as such"""
    c = Check(pid, level)
    try:
        body(c)
    except BuildError as e:
        print("BUILD FAILED\n%s" % e)
        sys.exit(2)
    c.finish()
