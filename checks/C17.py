#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tk, cli


def body(c):
    T = c.thorough
    m = vlib.tlc("MCReader", workers=4)
    c.add_tlc(m)
    if not m.clean: c.violate("the model of writer and reader is wrong", m.out[-3000:])
    b = vlib.build()
    files = tk.many(vlib.SEED, 60 if T else 7)
    rnd = random.Random(vlib.SEED + 17)
    d = vlib.sub("files")
    for i, f in enumerate(files): tk.write(f, "%s/f%d" % (d, i), rnd)
    ng = len(files)
    if ng < 20: c.violate("TLC generated only %d files" % ng)
    nreal, nev = (24, 40) if T else (8, 10)
    rl = tk.real(b, vlib.SEED, nreal, nev)
    if len(rl) < nreal // 2: c.violate("cgmf.x wrote only %d of %d files" % (len(rl), nreal))
    files += rl
    jobs, data, meta = [], [], []
    for i, f in enumerate(files):
        n = sum(1 for l in f["lines"] if len(l) == 10 and l[0][0] == 0) // 2
        firsts = [0] + rnd.sample([1, max(1, n - 1), n, n + 1, n + 7], 2)
        for k in dict.fromkeys(firsts):
            jobs.append(dict(file=f["path"], first=k, kind="read"))
            data.append(dict(lines=f["lines"], ages=f["ages"], window=cli.gtok(f["window"]), first=k))
            meta.append(dict(file=os.path.basename(f["path"]) if i < ng else "cgmf.x -i %s -e %s" % (f["zaid"], f["E"]), events=n, first=k, ages=f["ages"], path=f["path"]))
    ok = []
    for x, o, q in zip(data, tk.probe(jobs), meta):
        if o is None or "error" in o:
            c.violate("CGMFtk does not read a well-formed file (%s): %s" % (q, (o or {}).get("error")), open(q["path"]).read())
        else:
            x["obs"] = {k: dict(ok=v["ok"], v=v["v"]) for k, v in o.items()}; x["why"] = {k: v.get("why", "") for k, v in o.items() if not v["ok"]}
            ok.append((x, q))
    for r, bad in tk.judge("TraceReader", [dict(x, why=0) for x, _ in ok], "rd"):
        c.add_tlc(r)
        for i, names in bad:
            if i is None: c.violate("TLC could not evaluate the files: " + names)
            else:
                x, q = ok[i]
                c.violate("CGMFtk's %s differ from the file's events (%s) %s" % (", ".join(names), {k: v for k, v in q.items() if k != "path"}, x["why"] or ""),
                          open(q["path"]).read())
    c.traces(len(ok))
    c.count("files_generated_by_TLC", ng); c.count("files_of_cgmf", len(rl))
    c.count("accessors_compared", sum(len(x["obs"]) for x, _ in ok))
    for q in meta[:2] + meta[-1:]: c.sample({k: v for k, v in q.items() if k != "path"})
    c.assumptions = ["files have at least one event", "numbers compared exactly at the printed digits"]


vlib.run_check("C17", body)
