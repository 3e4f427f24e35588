#!/usr/bin/env python3
import os, sys, random, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tk, cli, events


def tt(s):
    """a time as TLC compares it: eight digits, rounded down"""
    x = float(s)
    if x == 0: return [0, 0]
    m, e = ("%.16e" % x).split("e")
    return [int(m.replace(".", "")[:8]), int(e)]


def exact(s):
    x = float(s)
    if x == 0: return [0, 0]
    m, e = ("%.7e" % x).split("e")
    return [int(m.replace(".", "")), int(e)]


GN = [10 ** (-3 + 5 * i / 99) for i in range(100)]
GG = [10 ** (-1 + 2 * i / 199) for i in range(200)]
micro = lambda x: int(math.floor(x * 1e6 + 1e-6))


def body(c):
    T = c.thorough
    b = vlib.build()
    files = tk.many(vlib.SEED + 5000, 50 if T else 6)
    rnd = random.Random(vlib.SEED + 18)
    d = vlib.sub("files")
    for i, f in enumerate(files):
        tk.write(f, "%s/f%d" % (d, i), rnd); f["exact"] = True
    ng = len(files)
    if ng < 20: c.violate("TLC generated only %d files" % ng)
    nreal, nev = (24, 30) if T else (8, 8)
    rl = tk.real(b, vlib.SEED + 1, nreal, nev)
    if len(rl) < nreal // 2: c.violate("cgmf.x wrote only %d of %d files" % (len(rl), nreal))
    for f in rl: f["exact"] = False
    files += rl
    jobs, data = [], []
    for i, f in enumerate(files):
        fr = [l for l in f["lines"] if len(l) == 10 and l[0][0] == 0]
        pick = rnd.choice(fr)
        lo, hi = rnd.choice([("1.1111111e-09", "3.3333333e-06"), ("2.2222222e-10", "1.7777777e-08"), ("1.3131313e-06", "7.7171717e-01")])
        n = int(50 * abs(math.log10(float(hi)) - math.log10(float(lo))) + 1)
        gt = [float(lo) + (float(hi) - float(lo)) * k / (n - 1) for k in range(n)]
        times = sorted(rnd.sample(["0", "1e-09", "1.23456e-08", "2e-07", "1e-06", "1.23456e-05", "5e-03", "1", "10", "9.99999"], 4), key=float)
        th = [0] + rnd.sample([2, 99, 250, 500, 501, 1000, 1001, 2500, 5678, 12345], 2) + [rnd.choice([30000, 20001, 1])]
        gates = [(500, 250), rnd.choice([(1234, 3), (7, 4), (2250, 1250)])] if i % 4 else [(500, 250)]
        win = rnd.choice([("0", "1e-08"), ("1e-09", "2e-06"), ("1.23456e-08", "5e-04"), (lo, hi)])
        ask = dict(th=th, times=times, win=list(win), gates=[list(g) for g in gates], az=[pick[0][1] - pick[7][1], pick[1][1]], gm=True, gmwin=[lo, hi])
        jobs.append(dict(file=f["path"], kind="observe", ask=ask))
        data.append(dict(lines=f["lines"], ages=f["ages"], exact=f["exact"],
                         ask=dict(th=th, times=[exact(t) for t in times], win=[exact(t) for t in win], dtimes=[exact("%.7e" % 10 ** (-9 + 9 * k / 14)) for k in range(15)],
                                  gates=[list(g) for g in gates], az=ask["az"], gn=[micro(x) for x in GN], gg=[micro(x) for x in GG], gt=[tt(x) for x in gt],
                                  gtd=[[99999999, -9]] + [tt(1e-8 + (100 - 1e-8) * k / 500) for k in range(1, 501)])))
    ok = []
    for x, o, j, i in zip(data, tk.probe(jobs), jobs, range(len(jobs))):
        if o is None or "error" in o:
            c.violate("CGMFtk does not read a well-formed file: %s" % (o or {}).get("error"), open(j["file"]).read())
        else:
            x["obs"] = {k: dict(ok=v["ok"], v=v["v"]) for k, v in o.items()}
            ok.append((x, j, {k: v.get("why", "") for k, v in o.items() if not v["ok"]}, "generated" if i < ng else "cgmf.x"))
    for r, bad in tk.judge("TraceToolkit", [x for x, _, _, _ in ok], "tk"):
        c.add_tlc(r)
        for i, names in bad:
            if i is None: c.violate("TLC could not evaluate the files: " + names)
            else:
                x, j, why, kind = ok[i]
                c.violate("CGMFtk's %s differ from their definitions on a file (%s), asked %s %s" % (", ".join(names), kind, j["ask"], {k: v for k, v in why.items() if k in names} or ""),
                          open(j["file"]).read())
    c.traces(len(ok))
    c.count("files_generated_by_TLC", ng); c.count("files_of_cgmf", len(rl))
    c.count("observables_compared", sum(len(x["obs"]) for x, _, _, _ in ok))
    for j in jobs[:2]: c.sample(j["ask"])
    c.assumptions = ["means of nothing are not compared", "TKE-binned averages of cgmf.x files are compared only if no TKE lies on a bin boundary; spectra only if no energy lies on an end of the grid",
                     "angles of cgmf.x files to 4e-4 (momenta rounded to 1 MeV/c in the model), of generated files to 3e-6"]


vlib.run_check("C18", body)
