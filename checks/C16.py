#!/usr/bin/env python3
import os, sys, random, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels, cli, pairs


def body(c):
    b = vlib.build()
    T = c.thorough
    rnd = random.Random(vlib.SEED * 19 + 16)
    alls = [(z, True) for z in events.SF] + [(z, False) for z in events.NI] * 3
    jobs = []
    for i in range(240 if T else 64):
        za, sf = alls[i % len(alls)]
        E = 0.0 if sf else events.energies(rnd)
        jobs.append(dict(i=i, za=za, E=E, N=rnd.choice([1, 2, 13, 60] if not T else [1, 5, 60, 400]), S=rnd.randint(1, 10 ** 6)))
    lv = levels.text(levels.gen(vlib.SEED * 3 + 4, events.masses(), "rich"))

    def work(q):
        d = vlib.sub("y%d" % q["i"])
        a = ["-i", q["za"], "-e", repr(q["E"]), "-n", -q["N"], "-s", q["S"]]
        if q["i"] % 3: a += ["-f", "yy"]
        rc, out, err = cli.run(b, d, a, raw_levels=lv)
        f = d + ("/yy.0" if q["i"] % 3 else "/yields.cgmf.0")
        if rc != 0 or not os.path.exists(f): return "cgmf.x %s: status %s, no %s; %s" % (a, rc, f, err[-300:])
        txt = open(f).read()
        rc2, _, _ = cli.run(b, d + "/again", a, raw_levels=lv)
        same = open(d + "/again/" + os.path.basename(f)).read() == txt
        with open(d + "/s", "w") as fh:
            fh.write("data %s/data\nuseed %d\nyld %d %r %d lib\n" % (vlib.REPO, q["S"], q["za"], q["E"], q["N"]))
        subprocess.run([b["drv"], "s", "o"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=vlib.ENV, timeout=300)
        same = same and os.path.exists(d + "/lib") and open(d + "/lib").read() == txt
        return dict(cap=pairs.capture(q["za"], q["E"]), n=q["N"], lines=[pairs.fragment(l.split()) for l in txt.splitlines()], same=same)
    res = vlib.parallel(work, jobs)
    runs, meta = [], []
    for q, r in zip(jobs, res):
        if isinstance(r, str): c.violate(r, q)
        else: runs.append(r); meta.append(q)

    pairs.judge(c, runs, meta, pairs.ALL)
    c.traces(len(runs))
    c.count("pairs", sum(r["n"] for r in runs))
    lost = [pairs.lost(r) for r in runs]
    c.count("pairs_after_prefission_neutrons", sum(1 for x in lost for y in x if y))
    # every pair is drawn anew: so is the number of its pre-fission neutrons
    multi = [(q, x) for q, x in zip(meta, lost) if q["E"] > 7.5 and len(x) >= 13]
    c.count("multichance_runs", len(multi))
    if len(multi) >= 6 and all(len(set(x)) == 1 for _, x in multi):
        c.finding("CHANCE", "%d runs" % len(multi))
    for q in meta[:2]: c.sample(q)
    c.assumptions = ["values are those of the printed 6 digits", "energies of pre-fission neutrons are not shown in a yields file; they are bounded, not known"]


vlib.run_check("C16", body)
