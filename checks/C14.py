#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels, runs


def body(c):
    b = vlib.build()
    T = c.thorough
    r = vlib.tlc("MCRun", workers=vlib.NPROC)
    if not r.clean: print(r.out[-2000:]); sys.exit(2)
    c.add_tlc(r)
    rnd = random.Random(vlib.SEED * 11 + 14)
    Is = [94240, 98252, 92235, 94239, 92238, 93237]
    Es = ["0", "2.53e-8", "%.3f" % rnd.uniform(6, 20), "%.2f" % rnd.uniform(.1, 6)]
    Ts = ["-1", "0", "1e-6", "-2", "-1.5", "2.5"]
    Fs = ["out", "a.b", "h9"]
    lv = levels.text(levels.gen(vlib.SEED * 3 + 1, events.masses(), "rich"))
    rn = runs.Runner(b, Is, Es, Ts, Fs, {4, 5}, lv)
    plans = runs.generate(c, 900 if T else 150, 1, len(Is), [1, 2], len(Es), len(Ts), len(Fs), [0, 1, 2, 3, 5, 7], [1, 2, 17, 0, rnd.randint(10 ** 5, 10 ** 9)], 9, "gen14")
    plans = [p for p in plans if runs.settings(p[0])["n"] > 0 or runs.settings(p[0])["f"] > 0]      # without events a name is wanted
    jobs = []
    for i, (line, order) in enumerate(plans):
        s = runs.settings(line)
        parts = ()
        if s["n"] >= 2 and s["t"] not in rn.bad:
            k = rnd.randint(1, s["n"] - 1)
            parts = (k, s["n"] - k) if i % 3 else tuple([1] * s["n"])
        jobs.append(("s%d" % i, line, (0,), parts))
    # long runs: progress output, many events, large numbers
    for i, (ri, ei, n) in enumerate([(1, 1, 1000), (3, 3, 210)] + ([(5, 3, 2500), (4, 2, 1001), (2, 1, 1500)] if T else [])):
        line = [["i", ri, 0], ["e", ei, 0], ["n", n, 0], ["s", 40 + i, 0], ["t", 1, 0]]
        jobs.append(("l%d" % i, line, (0,), (n // 2 + 1, n - n // 2 - 1) if T or n < 1000 else ()))
    jobs.sort(key=lambda j: -runs.settings(j[1])["n"])
    res = vlib.parallel(lambda j: rn.one(*j), jobs)
    data, metas = [], []
    for j, x in zip(jobs, res):
        if isinstance(x, str): c.violate(x, j[1])
        else: data.append(x); metas.append("cgmf.x " + " ".join(rn.args(j[1])))
    runs.judge(c, data, metas, 1, "run")
    c.count("command_lines", len(data))
    c.count("events", sum(len(x["obs"]) for x in data))
    c.count("refused", sum(1 for x in data if x["rc"][0]))
    for m in metas[:3]: c.sample(m)
    c.assumptions = ["an event of the file is recognised by its fragment and momentum lines at the printed digits; its particle lines are C13's business",
                     "summary averages are compared at the two printed digits"]


vlib.run_check("C14", body)
