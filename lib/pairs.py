"""Yields runs of the real code, judged pair by pair by TLC (TraceYields.tla, YieldsFile.tla)."""
import math, os, random, re, subprocess
import vlib, events, levels

ALL = ["nucleons", "escission", "pscission", "domain"]


def fixed(t, scale):
    x = float(t)
    if x != x or abs(x * scale) > 2e9: raise ValueError
    return int(round(x * scale))


def fragment(tok):
    """nine numbers of a yields line, fixed point; not ok if they are not"""
    try:
        if len(tok) != 9: raise ValueError
        j2 = fixed(tok[4], 2) if abs(float(tok[4]) * 2 - round(float(tok[4]) * 2)) < 1e-6 else -1
        return dict(ok=True, Z=int(tok[0]), A=int(tok[1]), KE=fixed(tok[2], 1e6), U=fixed(tok[3], 1e6), J2=j2, P=int(tok[5]), p=[fixed(x, 1e4) for x in tok[6:9]])
    except ValueError:
        return dict(ok=False, Z=0, A=0, p=[0, 0, 0])


def capture(za, E):
    return dict(Z=za // 1000, A=za % 1000, E=0 if E == 0 else max(1, events.I(E, 1e6)), p=[0, 0, events.I(math.sqrt(2 * events.MN * E), 1e4)])


def judge(c, runs, meta, laws):
    """runs: [dict(cap, n, lines, same)], meta: [dict(za, E, ...)]; violations to c"""
    def one(g):
        if not g: return None
        used = set()
        for i in g:
            za = meta[i]["za"]
            used.add((za // 1000, za % 1000)); used.add((za // 1000, za % 1000 + 1))
            for x in runs[i]["lines"]:
                if x["ok"] and 0 < x["Z"] < 130 and 0 < x["A"] < 300: used.add((x["Z"], x["A"]))
        data = events.table(used, {}, False)
        data["laws"] = laws
        data["runs"] = [runs[i] for i in g]
        for attempt in range(2):
            r = vlib.tlc("TraceYields", files={"data.json": data}, name="yl%d" % g[0], heap="3g", timeout=800)
            m = re.search(r'"REJECTED"\s*,\s*(\{.*?\})\s*,\s*(.*?)>>', r.out, re.S)
            if m and not events.expand(m.group(1)): return r, []
        if not m: return r, [(g[0], r.out[-1000:])]
        return r, [(g[int(x) - 1], m.group(2)[:200]) for x in events.expand(m.group(1))]
    for x in vlib.parallel(one, [list(range(len(runs)))[i::vlib.NPROC] for i in range(vlib.NPROC)]):
        if x is None: continue
        r, bad = x
        c.add_tlc(r)
        for i, w in bad[:3]:
            c.violate("yields of %s are not scissions of YieldsFile.tla (laws %s; line reached: %s; repeatable: %s)" % (meta[i], laws, w, runs[i]["same"]), dict(request=meta[i], lines=runs[i]["lines"]))


def lost(r):
    return [r["cap"]["A"] + (r["cap"]["E"] > 0) - r["lines"][2 * k]["A"] - r["lines"][2 * k + 1]["A"] for k in range(len(r["lines"]) // 2)]


def many(c, laws, nruns, npairs, salt):
    """pairs of scission fragments of all targets and energies through cgmfYields"""
    b = vlib.build()
    rnd = random.Random(vlib.SEED * 1009 + salt)
    alls = [(z, True) for z in events.SF] + [(z, False) for z in events.NI] * 3
    jobs = []
    for i in range(nruns):
        za, sf = alls[i % len(alls)]
        jobs.append(dict(i=i, za=za, E=0.0 if sf else events.energies(rnd), N=npairs, S=rnd.randint(1, 10 ** 6)))
    lv = levels.text(levels.gen(vlib.SEED * 3 + 4, events.masses(), "bare"))

    def work(q):
        d = vlib.sub("yp%d" % q["i"])
        with open(d + "/discreteLevels.dat", "w") as f: f.write(lv)
        with open(d + "/s", "w") as f:
            f.write("data %s/data\nseed %d\nyld %d %r %d lib\n" % (vlib.REPO, q["S"], q["za"], q["E"], q["N"]))
        p = subprocess.run([b["drv"], "s", "o"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=vlib.ENV, timeout=600)
        if p.returncode or not os.path.exists(d + "/lib"): return "yields of %s: status %d" % (q, p.returncode)
        ls = [fragment(l.split()) for l in open(d + "/lib").read().splitlines()]
        subprocess.run(["rm", "-rf", d])
        return dict(cap=capture(q["za"], q["E"]), n=q["N"], lines=ls, same=True)
    runs, meta = [], []
    for q, r in zip(jobs, vlib.parallel(work, jobs)):
        if isinstance(r, str): c.violate(r, q)
        else: runs.append(r); meta.append(q)
    judge(c, runs, meta, laws)
    c.count("yields_pairs", sum(r["n"] for r in runs))
    c.count("yields_pairs_after_prefission_neutrons", sum(1 for r in runs for y in lost(r) if y))
    c.count("yields_pairs_near_symmetry", sum(1 for r in runs for k in range(len(r["lines"]) // 2) if abs(r["lines"][2 * k]["A"] - r["lines"][2 * k + 1]["A"]) <= 3))
