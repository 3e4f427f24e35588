"""Runs of cgmf.x (serial, or one process per rank with the stand-in MPI) against Run.tla."""
from concurrent.futures import ThreadPoolExecutor
import hashlib, json, os, random, re, subprocess, time
import vlib, events, levels, cli


def mpi_build(b):
    """cgmf.x compiled with MPIRUN against the stand-in mpi.h"""
    exe = os.path.join(b["dir"], "cgmf.mpi.x")
    r = vlib.sh(["g++", "-std=c++14", "-O1", "-DMPIRUN", "-I" + vlib.VERIF + "/harness/mpi", "-I" + vlib.REPO + "/libcgmf/include",
                 "-I" + os.path.join(b["dir"], "libcgmf"), vlib.REPO + "/utils/cgmf/cgmf.cpp", b["lib"], "-o", exe])
    if r.returncode: raise vlib.BuildError(r.stdout.decode(errors="replace")[-4000:])
    return exe


def generate(c, num, ranks, nI, sfs, nE, nT, nF, Ns, Ss, maxopts, name):
    """command lines and schedules out of GenRun.tla"""
    S = lambda xs: "{%s}" % ",".join(map(str, xs))
    cfg = ("SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Ranks = %d\n MaxN = 1\n Starts = {1}\n Is = %s\n SFs = %s\n Es = %s\n Ts = %s\n"
           " Fs = %s\n Ns = %s\n Ss = %s\n MaxOpts = %d\n" % (ranks, S(range(1, nI + 1)), S(sfs), S(range(1, nE + 1)), S(range(1, nT + 1)), S(range(1, nF + 1)), S(Ns), S(Ss), maxopts))
    r = vlib.tlc("GenRun", cfg="gen", files={"gen.cfg": cfg}, name=name,
                 extra=["-simulate", "num=%d" % num, "-depth", str(maxopts + ranks + 6), "-seed", str(vlib.SEED * 7919 + 29 + ranks)])
    out = []
    for l in r.out.splitlines():
        if l.startswith('"[') or l.startswith("[["):
            x = json.loads(l)
            out.append(json.loads(x) if isinstance(x, str) else x)
    if "Error:" in r.out or not out: raise RuntimeError("generation failed: " + r.out[-2000:])
    c.count("states_visited_by_simulation", r.generated)
    seen, res = set(), []
    for l, o in out:
        k = json.dumps([l, o])
        if k not in seen:
            seen.add(k); res.append((l, o))
    return res


def settings(line):
    s = dict(i=0, e=0, t=0, f=0, n=0, s=1)
    for o, v, _ in line: s[o] = v
    return s


def blocks(lines):
    """event blocks (lists of token lists) of a history file body; None if it has no such structure"""
    out, l = [], 0
    try:
        while l < len(lines):
            st = l; npre = 0
            for f in (0, 1):
                if len(lines[l]) != 10: return None
                nu, ng, npre = int(lines[l][7]), int(lines[l][8]), int(lines[l][9])
                l += 2 + (2 if nu else 0) + (1 if ng else 0)
            if npre: l += 1
            if l > len(lines): return None
            out.append(lines[st:l])
    except (ValueError, IndexError):
        return None
    return out


def fkey(F, npre):
    return " ".join(["%d %d %.3f %.1f %d %.3f %.3f %d %d %d" % (F["A"], F["Z"], F["U"], F["J"], F["P"], F["KE"], F["KEp"], F["nu"], F["ng"], npre)]
                    + ["%.3f" % x for x in F["pre"] + F["post"]])


def libkey(r):
    return fkey(r["LF"], 0) + "|" + fkey(r["HF"], r["npre"])


def blockkey(bl):
    heads = [0]
    nu, ng = int(bl[0][7]), int(bl[0][8])
    h = 2 + (2 if nu else 0) + (1 if ng else 0)
    return " ".join(bl[0] + bl[1]) + "|" + " ".join(bl[h] + bl[h + 1])


def obs(r, sc):
    L, H = r["LF"], r["HF"]
    V = lambda x: events.I(x, sc)
    nl, gl = L["nu"], L["ng"]
    # (sums within an event are of a few terms; their rounding is covered by the tolerance M per sum)
    return [L["Z"], L["A"], H["Z"], H["A"], V(L["KE"]), V(H["KE"]), V(L["U"]), V(H["U"]), V(L["J"]), V(H["J"]), nl, H["nu"], r["npre"],
            V(sum(r["cE"][:nl])), V(sum(r["cE"][nl:])), V(sum(r["nE"][:nl])), V(sum(r["nE"][nl:])), V(sum(r["pE"])), gl, H["ng"],
            V(sum(r["gE"][:gl])), V(sum(r["gE"][gl:]))]


PREFIX = ["Average Light Fragment", "Average Heavy Fragment", "Average Kinetic Energies", "Average Excitation Energies", "Average Fragment Spins",
          "Multiplicities (n/f)", "c-o-m Energies", "Lab. Energies", "Multiplicities (g/f)", "Gamma Energies"]


def summary(out):
    """(numbers in 0.01, ZAID named, number of summaries)"""
    nums, za = [], 0
    m = re.search(r"Reaction: .*?of \(\s*(\d+),\s*(\d+)\)|Reaction: .*? on \(\s*(\d+),\s*(\d+)\)", out)
    if m:
        g = [x for x in m.groups() if x]
        za = 1000 * int(g[0]) + int(g[1])
    for p in PREFIX:
        ls = [l for l in out.splitlines() if l.strip().startswith(p)]
        if len(ls) != 1: return [], za, out.count("CGMF Results")
        for x in re.findall(r"-?\d+\.\d+|-?nan|-?inf", ls[0]):
            nums.append(int(round(float(x) * 100)) if "n" not in x else -999999)
    return nums, za, out.count("CGMF Results")


class Runner:
    def __init__(self, b, Is, Es, Ts, Fs, bad, raw_levels, mpi=None):
        self.b, self.Is, self.Es, self.Ts, self.Fs, self.bad, self.lv, self.mpi = b, Is, Es, Ts, Fs, bad, raw_levels, mpi

    def val(self, o, v):
        return {"i": self.Is, "e": self.Es, "t": self.Ts, "f": self.Fs}[o][v - 1] if o in "ietf" else v

    def args(self, line):
        out = []
        for o, v, g in line:
            x = str(self.val(o, v))
            out += ["-%s%s" % (o, x)] if g else ["-" + o, x]
        return out

    def texts(self, path, ids, want_ids=True):
        head, lines = cli.readlines(path)
        bl = blocks(lines)
        if bl is None: return head, [-99999], [0]
        return head, [ids.get(blockkey(x), -99999) for x in bl], [int(hashlib.md5(str(x).encode()).hexdigest()[:7], 16) for x in bl]

    def one(self, name, line, order=(0,), parts=(), simultaneous=False):
        s = settings(line)
        R = len(order)
        d = vlib.sub("run-" + name)
        with ThreadPoolExecutor(3) as ex: return self._one(ex, d, s, R, line, order, parts, simultaneous)

    def _one(self, ex, d, s, R, line, order, parts, simultaneous):
        with open(d + "/discreteLevels.dat", "w") as f: f.write(self.lv)
        args = self.args(line)
        rcs, outs = [None] * R, [""] * R
        refused = s["t"] in self.bad
        W = "1e-8" if s["t"] == 0 else self.Ts[s["t"] - 1]
        za, E = self.Is[s["i"] - 1], self.Es[s["e"] - 1]
        flib = ex.submit(lambda: [] if refused else cli.library(self.b, d + "/.lib", za, E, W, range(s["s"], s["s"] + R * s["n"]), self.lv))
        st, fp = s["s"], []
        for j, n in enumerate(parts):
            fp.append((n, st, ex.submit(self.piece, d + "/.p%d" % j, ["-i", za, "-e", E, "-n", n, "-s", st, "-f", "p"] + (["-t", W] if s["t"] else []))))
            st += n
        if self.mpi is None:
            rc, o, e = cli.run(self.b, d, args)
            rcs[0], outs[0] = rc, o
        else:
            os.makedirs(d + "/.mpi", exist_ok=True)
            ps = {}
            for r in order:
                env = dict(vlib.ENV, STUB_MPI_RANK=str(r), STUB_MPI_SIZE=str(R), STUB_MPI_DIR=d + "/.mpi")
                ps[r] = subprocess.Popen([self.mpi] + args, cwd=d, stdout=open("%s/.mpi/out.%d" % (d, r), "w"), stderr=subprocess.DEVNULL, env=env)
                t0 = time.time()
                while not simultaneous and ps[r].poll() is None and time.time() - t0 < 120:
                    try: lg = open("%s/.mpi/log.%d" % (d, r)).read()
                    except OSError: lg = ""
                    if "wait" in lg: break                 # blocked in a collective: the next rank may start
                    time.sleep(.005)
            for r in order:
                try: rcs[r] = ps[r].wait(timeout=180)
                except subprocess.TimeoutExpired:
                    ps[r].kill(); rcs[r] = "timeout"
                outs[r] = open("%s/.mpi/out.%d" % (d, r), errors="replace").read()
        rcs = [x if isinstance(x, int) else 99 for x in rcs]
        lib = flib.result()
        if not refused and len(lib) != R * s["n"]: return "the library gave %d events for %s" % (len(lib), line)
        ids = {libkey(r): s["s"] + j for j, r in enumerate(lib)}
        sc = 10000 if len(lib) <= 300 else 1000
        files, names = [], {}
        for p in os.listdir(d):
            if p.startswith(".") or p == "discreteLevels.dat": continue
            names[p] = 1
        stem = ["histories.cgmf"] + list(self.Fs)
        for r in range(R):
            hit = [(k, "%s.%d" % (n, r)) for k, n in enumerate(stem) if "%s.%d" % (n, r) in names]
            if len(hit) != 1:
                files.append(dict(f=-1, head=[], ids=[], txt=[])); continue
            k, fn = hit[0]
            names.pop(fn)
            head, eid, txt = self.texts(os.path.join(d, fn), ids)
            files.append(dict(f=k, head=self.header(head), ids=eid, txt=txt))
        shown, zz, printed = summary("".join(outs))
        pcs = [dict(n=n, s=st, txt=f.result()) for n, st, f in fp]
        vlib.sh(["rm", "-rf", d])
        try: ob = [dict(id=s["s"] + j, v=obs(r, sc)) for j, r in enumerate(lib)]
        except events.Out: return "the library reports a value that is not finite for %s" % line
        return dict(opts=[[o, v] for o, v, _ in line], bad=sorted(self.bad), scale=sc, rc=rcs, files=files, stray=len(names), shown=shown, printed=printed,
                    reaction=(self.Is.index(zz) + 1 if zz in self.Is else 0), pieces=pcs, obs=ob)

    def piece(self, dd, q):
        os.makedirs(dd)
        cli.run(self.b, dd, q, raw_levels=self.lv)
        return self.texts(dd + "/p.0", {})[2] if os.path.exists(dd + "/p.0") else []

    def header(self, head):
        if not head: return []
        if len(head) != 4: return [-1, -1, -1]
        idx = lambda xs, t: ([k for k, x in enumerate(xs) if cli.gtok(str(x)) == cli.gtok(t)] or [-2])[0]
        return [idx(self.Is, head[1]) + 1, idx(self.Es, head[2]) + 1, idx(["1e-8"] + list(self.Ts), head[3])]


def judge(c, data, metas, ranks, label):
    cfg = ("SPECIFICATION TSpec\nINVARIANT Safe\nCONSTRAINT Track\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Ranks = %d\n MaxN = 1\n Starts = {1}\n" % ranks)
    groups = [list(range(len(data)))[i::vlib.NPROC] for i in range(vlib.NPROC)]

    def one(g):
        if not g: return None
        for attempt in range(2):
            r = vlib.tlc("TraceRun", cfg="trace", files={"trace.cfg": cfg, "data.json": [data[i] for i in g]}, name="%s%d" % (label, g[0]), heap="2g")
            m = re.search(r'"REJECTED"\s*,\s*(\{.*?\})\s*,\s*(.*)', r.out, re.S)
            if m and not events.expand(m.group(1)) and r.clean: return r, []
        if not m or not events.expand(m.group(1)): return r, [(g[0], "TLC: " + r.out[-1200:])]
        return r, [(g[int(x) - 1], m.group(2)[:300]) for x in events.expand(m.group(1))]
    for x in vlib.parallel(one, groups):
        if x is None: continue
        r, bad = x
        c.add_tlc(r)
        for i, n in bad[:3]:
            dd = {k: v for k, v in data[i].items() if k != "obs"}
            c.violate("run %s is not a behaviour of Run.tla; last state %s; observed %s" % (metas[i], n, json.dumps(dd)[:1500]), dict(meta=metas[i], data=data[i]))
    c.traces(len(data))
