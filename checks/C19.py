#!/usr/bin/env python3
import os, sys, random, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tk, cli, events, levels


def show(t):
    return "%g" % (t[1] / 2.0) if t[0] == 2 else tk.show(t)


def body(c):
    T = c.thorough
    b = vlib.build()
    rnd = random.Random(vlib.SEED + 19)
    d = vlib.sub("files")
    files, seen = [], set()
    for mx, num in ((1, 4), (3, 12), (12, 24)):
        r = vlib.tlc("GenYields", cfg="gen", files={"gen.cfg": "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxEvents = %d\n" % mx},
                     extra=["-simulate", "num=%d" % (num * (12 if T else 1)), "-depth", str(mx + 2), "-seed", str(vlib.SEED * 7 + mx)], name="geny%d" % mx)
        for l in r.out.split("\n"):
            if l.startswith('"[[') and l not in seen:
                seen.add(l)
                files.append(dict(rows=json.loads(json.loads(l)), kind="generated"))
    for i, f in enumerate(files):
        f["path"] = "%s/y%d" % (d, i)
        with open(f["path"], "w") as h: h.write("".join(" ".join(show(t) for t in l) + "\n" for l in f["rows"]))
    ng = len(files)
    if ng < 20: c.violate("TLC generated only %d files" % ng)
    alls = [(z, True) for z in events.SF] + [(z, False) for z in events.NI]
    lv = levels.text(levels.gen(5, events.masses(), "bare"))

    def real(i):
        za, sf = alls[(i * 5 + vlib.SEED) % len(alls)]
        dd = vlib.sub("ry%d" % i)
        rc, out, err = cli.run(b, dd, ["-i", za, "-e", "0" if sf else "%.2f" % (1 + 3.7 * (i % 6)), "-n", -[1, 7, 60, 150][i % 4], "-s", 1 + i, "-f", "y"], raw_levels=lv)
        if rc or not os.path.exists(dd + "/y.0"): return None
        rows = []
        for l in open(dd + "/y.0"):
            t = l.split()
            if len(t) != 9: return None
            rows.append([cli.token(t[0]), cli.token(t[1]), cli.gtok(t[2]), cli.gtok(t[3]), [2, int(round(2 * float(t[4])))], cli.token(t[5])] + [cli.gtok(x) for x in t[6:]])
        return dict(rows=rows, path=dd + "/y.0", kind="cgmf.x -i %d" % za)
    rl = [x for x in vlib.parallel(real, range(16 if T else 8)) if x]
    if len(rl) < 4: c.violate("cgmf.x wrote only %d yields files" % len(rl))
    files += rl
    jobs, data = [], []
    for f in files:
        n = len(f["rows"]) // 2
        for k in dict.fromkeys([0] + rnd.sample([1, max(1, n - 1), n, n + 1, n + 5], 2)):
            jobs.append(dict(file=f["path"], first=k, kind="yields")); data.append((f, k))
    ok = []
    for (f, k), o in zip(data, tk.probe(jobs)):
        if o is None or "error" in o: c.violate("CGMFtk does not read a yields file (%s): %s" % (f["kind"], (o or {}).get("error")), open(f["path"]).read())
        else: ok.append((dict(rows=f["rows"], first=k, obs={n: dict(ok=v["ok"], v=v["v"]) for n, v in o.items()}), f, {n: v.get("why") for n, v in o.items() if not v["ok"]}))
    for r, bad in tk.judge("YieldsTk", [x for x, _, _ in ok], "yt"):
        c.add_tlc(r)
        for i, names in bad:
            if i is None: c.violate("TLC could not evaluate the files: " + names)
            else: c.violate("CGMFtk's %s differ from the lines of a yields file (%s, first %d events asked for) %s" % (", ".join(names), ok[i][1]["kind"], ok[i][0]["first"], ok[i][2] or ""), open(ok[i][1]["path"]).read())
    c.traces(len(ok))
    c.count("files_generated_by_TLC", ng); c.count("files_of_cgmf", len(rl)); c.count("accessors_compared", sum(len(x["obs"]) for x, _, _ in ok))
    for x, f, _ in ok[:2]: c.sample(dict(rows=x["rows"][:2], first=x["first"], kind=f["kind"]))
    c.assumptions = ["files have at least one event and six significant digits"]


vlib.run_check("C19", body)
