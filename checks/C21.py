#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels, freq, tk

WIN = 2.0 ** -26                     # the finite window: exact halves and doubles
ISO = lambda r: list(zip(r.sample(range(1, 6), 3), (WIN, WIN / 2, WIN * 4)))


def body(c):
    b = vlib.build()
    groups = 8 if c.thorough else 2  # level files
    per = 4000 if c.thorough else 1200
    workers = vlib.NPROC
    sch = []
    for g in range(groups):
        r = random.Random(vlib.SEED * 77 + g)
        sch.append((freq.scheme(r, 0, ISO), freq.scheme(r, 1, ISO)))

    def work(job):
        g, w = job
        rnd = random.Random(vlib.SEED * 1009 + g * 64 + w)
        win = -1.0 if w % 4 < 3 else WIN
        reqs = []
        for i in range(per):
            za = rnd.choice(events.SF + events.NI)
            reqs.append(dict(seed=rnd.randint(1, 2 ** 30), za=za, E=0.0 if za in events.SF else rnd.choice([2.53e-8, 0.5]), T=0.0, W=win))
        rc, recs, log = events.drive(b, "f%d-%d" % (g, w), events.script(reqs, False), freq.write(*sch[g]), timeout=800)
        cas = {p: freq.Cascade(sch[g][p], win) for p in (0, 1)}
        n = 0
        for r in recs:
            if r["op"] != "ev": continue
            n += 1
            try:
                for a, ph in freq.photons(r): cas[a % 2].add(ph)
            except TypeError:
                pass                                    # values that are not finite: C08
        return g, win, n, rc, log, cas

    jobs = [(g, w) for g in range(groups) for w in range(workers * (2 if c.thorough else 1) // (1 if c.thorough else groups))]
    merged, nev = {}, 0
    for g, win, n, rc, log, cas in vlib.parallel(work, jobs):
        nev += n
        if rc or n != per: c.violate("the library stopped (rc=%s) after %d events: %s" % (rc, n, log[-300:]))
        for p in cas:
            m = merged.setdefault((g, win, p), cas[p])
            if m is not cas[p]:
                for j in range(len(m.n)):
                    m.n[j] += cas[p].n[j]; m.wait[j] += cas[p].wait[j]
                    for f in range(len(m.n)): m.c[j][f] += cas[p].c[j][f]
    obs = []
    for (g, win, p), m in sorted(merged.items()):
        for o in m.observations(): obs.append((o, "level file %d, %s A, window %g" % (g, ["even", "odd"][p], win)))
    obs.append((dict(k="pool", o=[o for o, _ in obs], lev=0, c=[], n=len(obs)), "all levels together"))
    need = {"decay": 12, "held": 3, "wait": 3}
    for k, n in need.items():
        got = sum(1 for o, _ in obs if o["k"] == k)
        c.count("levels_judged_" + k, got)
        if got < n: c.violate("only %d level populations of kind %s were seen in %d events" % (got, k, nev))
    for r, bad in tk.judge("TraceFreq", [o for o, _ in obs], "fq"):
        c.add_tlc(r)
        for i, names in bad:
            if i is None: c.violate("TLC could not judge the counts: " + names); continue
            o, what = obs[i]
            c.violate("level %d (%s): %s counts %s of %d do not follow the level file (entries %s)" % (o["lev"], what, o["k"], o["c"], o["n"], names), o if o["lev"] else "")
    c.traces(nev)
    c.count("arrivals_in_levels", sum(o["n"] for o, _ in obs if o["k"] in ("decay", "held"))); c.count("stays_timed", sum(o["n"] for o, _ in obs if o["k"] == "wait"))
    for o, what in obs[:2]: c.sample(dict(what=what, level=o["lev"], n=o["n"], c=o["c"]))
    c.assumptions = ["a level population is seen by the photon that feeds it from another discrete level", "counts are accepted within six standard deviations",
                     "the level files are synthetic: one scheme for all even, one for all odd nuclei"]


vlib.run_check("C21", body)
