#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels, cli, re


def body(c):
    b = vlib.build()
    T = c.thorough
    rnd = random.Random(vlib.SEED * 7 + 13)
    nruns, nev = (96, 60) if T else (26, 14)
    alls = [(z, True) for z in events.SF] + [(z, False) for z in events.NI]
    jobs = []
    for i in range(nruns):
        za, sf = alls[i % len(alls)]
        E = "0" if sf else rnd.choice(["2.53e-8", "20", "%.3f" % rnd.uniform(5.5, 20), "%.3f" % rnd.uniform(.01, 5), "%.2f" % rnd.uniform(12, 20)])
        jobs.append(dict(i=i, za=za, E=E, W=["-1", "1e-08", "-1", "0", "1e-6", "2.5"][i % 6], S=rnd.randint(1, 900000), N=nev,
                         kind=["rich", "rich", "rich", "bare"][i % 4], lseed=vlib.SEED * 3 + i % 8))

    def work(q):
        lv = levels.text(levels.gen(q["lseed"], events.masses(), q["kind"]))
        d = vlib.sub("h%d" % q["i"])
        rc, out, err = cli.run(b, d, ["-i", q["za"], "-e", q["E"], "-n", q["N"], "-s", q["S"], "-t", q["W"], "-f", "h"], raw_levels=lv)
        lib = cli.library(b, d, q["za"], q["E"], q["W"], range(q["S"], q["S"] + q["N"]), lv)
        if rc != 0 or not os.path.exists(d + "/h.0") or len(lib) != q["N"]:
            return "cgmf.x: status %s for %s; library gave %d events; %s" % (rc, q, len(lib), err[-300:])
        head, lines = cli.readlines(d + "/h.0")
        try:
            evs = [cli.evrec(r) for r in lib]
        except events.Out:
            return "the library reports a value that is not finite for %s" % q
        ages = float(q["W"]) < 0
        hdr = [["#"], [0, q["za"]], cli.gtok(q["E"]), cli.gtok(q["W"])]
        hd = [["#"]] + [cli.token(head[1])] + [cli.gtok(t) for t in head[2:]] if head and head[0] == "#" and len(head) > 1 else []
        return dict(hdr=hdr, head=hd, ages=ages, lines=cli.age_lines(lines, evs, ages), events=evs)
    res = vlib.parallel(work, jobs)
    runs, meta = [], []
    for q, r in zip(jobs, res):
        if isinstance(r, str): c.violate(r, q)
        else:
            runs.append(r); meta.append(q)
    groups = [list(range(len(runs)))[i::vlib.NPROC] for i in range(vlib.NPROC)]

    def judge(g):
        if not g: return None
        for attempt in range(2):
            r = vlib.tlc("TraceHistory", files={"data.json": [runs[i] for i in g]}, name="hist%d" % g[0], heap="3g")
            m = re.search(r'"REJECTED"\s*,\s*(\{.*?\})\s*,\s*(.*?)>>', r.out, re.S)
            if m and not events.expand(m.group(1)): return r, []
        if not m: return r, [(None, r.out[-800:])]
        body = m.group(2)
        reached = [int(x) for x in re.findall(r":> (\d+)", body)] or [int(x) for x in re.findall(r"\d+", body)]
        return r, [(g[int(x) - 1], n) for x, n in zip(events.expand(m.group(1)), reached + [0] * 99)]
    for x in vlib.parallel(judge, groups):
        if x is None: continue
        r, bad = x
        c.add_tlc(r)
        for i, n in bad[:3]:
            if i is None: c.violate("TLC could not evaluate the files: " + str(n))
            else:
                ln = runs[i]["lines"][n - 1] if 0 < n <= len(runs[i]["lines"]) else "end of file"
                c.violate("history file of %s is not the text of its events: line %d after the header: %s" % (meta[i], n, str(ln)[:300]), meta[i])
    c.traces(len(runs))
    c.count("events_compared", sum(len(r["events"]) for r in runs))
    c.count("lines_compared", sum(len(r["lines"]) for r in runs))
    c.count("events_with_prefission_neutrons", sum(1 for r in runs for e in r["events"] if e["pre"]))
    c.count("fragments_without_photons", sum(1 for r in runs for e in r["events"] for F in (e["L"], e["H"]) if not F["g"]))
    c.count("fragments_without_neutrons", sum(1 for r in runs for e in r["events"] for F in (e["L"], e["H"]) if not F["n"]))
    for q in meta[:2]: c.sample(q)
    c.assumptions = ["file and library are compared at the printed digits (values to 1e-5)", "the library is asked for the same requests through its C++ class with the generator cgmf.x uses"]


vlib.run_check("C13", body)
