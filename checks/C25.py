#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels, freq, tk


def body(c):
    b = vlib.build()
    T = c.thorough
    rnd = random.Random(vlib.SEED * 29 + 25)
    tabs, m = freq.chances(), events.masses()
    jobs = []
    for za in events.NI:
        tab = tabs[za][1]
        # where the table changes most between two entries, somewhere in between; above the second threshold; anywhere
        steep = sorted([i for i in range(1, len(tab)) if tab[i][0] > 6400], key=lambda i: -max(abs(x - y) for x, y in zip(tab[i][1], tab[i - 1][1])))
        for k in range(6 if T else 1):
            i = steep[rnd.randrange(5)]
            jobs.append((za, rnd.randint(tab[i - 1][0] + 60, tab[i][0] - 60), 1500 if T else 700))
        for k in range(6 if T else 1):
            jobs.append((za, rnd.choice([rnd.randint(13000, 20000), rnd.randint(12, 40) * 500]), 1200 if T else 450))
        if T: jobs += [(za, rnd.randint(1, 12000), 600), (za, 20000, 600), (za, 0, 200)]
    chunks = []
    for j, (za, E, n) in enumerate(jobs):
        for k in range(0, n, 150): chunks.append((j, za, E, min(150, n - k), k))

    def work(ch):
        j, za, E, n, k = ch
        e = "%.3f" % (E / 1000.0) if E else "2.53e-08"
        text = "data %s/data\n" % vlib.REPO + "".join("seed %d\nev 0 %d %s 0 -1\n" % (vlib.SEED * 7000001 + j * 10007 + k + i, za, e) for i in range(n))
        rc, recs, log = events.drive(b, "c%d-%d" % (j, k), text, {}, timeout=800)
        return j, rc, log, [r["npre"] for r in recs if r["op"] == "ev"], n
    cnt = [[0] * len(tabs[za][0]) for za, _, _ in jobs]
    for j, rc, log, pre, n in vlib.parallel(work, chunks):
        if rc or len(pre) != n: c.violate("the library stopped (rc=%s) for %s: %s" % (rc, jobs[j], log[-300:]))
        for x in pre:
            if x >= len(cnt[j]): c.violate("%s: %d pre-fission neutrons, the table ends at %d" % (jobs[j], x, len(cnt[j]) - 1)); x = -1
            cnt[j][x] += 1
    obs = [dict(k="chance", c=cnt[j], tab=[[e, w] for e, w in tabs[za][1]], E=E, bar=tabs[za][0],
                me=[int(round(m[za + 1 - k] * 1000)) for k in range(len(tabs[za][0]))]) for j, (za, E, n) in enumerate(jobs)]
    obs.append(dict(k="pool", o=list(obs), c="all"))
    jobs.append(("all targets", 0, 0))
    for r, bad in tk.judge("TraceFreq", obs, "fq"):
        c.add_tlc(r)
        for i, names in bad:
            if i is None: c.violate("TLC could not judge the counts: " + names); continue
            c.violate("%s + n at %g MeV: %s events with 0, 1, .. pre-fission neutrons are not what multichancefission.dat says" % (jobs[i][0], jobs[i][1] / 1000.0, obs[i]["c"]), obs[i])
    c.traces(sum(n for _, _, n in jobs))
    c.count("distributions_judged", len(obs)); c.count("events_with_prefission_neutrons", sum(sum(x[1:]) for x in cnt))
    for j, q in enumerate(jobs[:3]): c.sample(dict(target=q[0], E_keV=q[1], counts=cnt[j]))
    c.assumptions = ["counts are accepted within six standard deviations", "only fission events: a yields run samples the number once (known finding CHANCE of C16)"]


vlib.run_check("C25", body)
