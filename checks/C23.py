#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels, tk, session


def binno(x):
    """the number of a 50 keV bin; -1 if the energy is not the middle of one"""
    if isinstance(x, str): return -1
    k = int(round(x / 0.05))
    return k if abs(x - 0.05 * k) < 1e-9 and 0 <= k < 100000 else -1


def body(c):
    T = c.thorough
    b = vlib.build()
    per = 1600 if T else 480
    m = events.masses()

    def work(w):
        rnd = random.Random(vlib.SEED * 41 + w)
        raw = levels.gen(vlib.SEED * 19 + w, m, ["rich", "prompt", "bare", "rich"][w % 4])
        zas = [z for z in m if levels.ZMIN <= z // 1000 <= levels.ZMAX and 2.1 * (z // 1000) <= z % 1000 <= 2.8 * (z // 1000)]
        calls, lines = [], ["data " + vlib.REPO + "/data"]
        for i in range(per):
            za = rnd.choice(zas)
            top = raw[za][-1]["E"] / 1e6 if za in raw else 0
            ex = rnd.choice([rnd.uniform(.03, max(.1, top)), top + rnd.uniform(-.12, .12), rnd.uniform(.5, 4), rnd.uniform(3, 9), rnd.uniform(9, 30), rnd.uniform(14, 40)])
            ex = max(.03, round(ex, 5))
            calls.append((za, ex)); lines += ["seed %d" % rnd.randint(1, 2 ** 30)]
            if i % 9 == 4:                               # whatever was asked for before must not matter
                lines += [rnd.choice(["ev 0 98252 0.0 0 1e-8", "cev 92235 2.0 0 1e-9", "ev 1 94239 14.1 0 -1", "free 0", "cleanup"])]
            lines += ["cgm %d %r" % (za, ex)]
        rc, recs, log = events.drive(b, "d%d" % w, "\n".join(lines) + "\n", raw, timeout=800)
        got = [r for r in recs if r["op"] == "cgm"]
        used, out = set(), []
        for (za, ex), r in zip(calls, got):
            z, a = divmod(za, 1000)
            used.add((z, a))
            fin = r["zaid"] == za and not any(isinstance(x, str) for x in r["g"] + r["n"])
            out.append(dict(Z=z, A=a, ex=int(round(ex * 1e6)), g=[binno(x) for x in r["g"]] if fin else [], n=[binno(x) for x in r["n"]] if fin else [], fin=fin))
        bad = None if rc == 0 and len(got) == per else "the library stopped (rc=%s) at call %s: %s" % (rc, calls[len(got)] if len(got) < per else "", log[-300:])
        data = events.table(used, raw)
        data["calls"] = out
        return data, bad, out
    res = vlib.parallel(work, range(vlib.NPROC))
    for data, bad, _ in res:
        if bad: c.violate(bad)
    for k, (r, bad) in enumerate(tk.judge("TraceDeexcite", [d for d, _, _ in res if d["calls"]], "dx")):
        c.add_tlc(r)
        for i, names in bad:
            if i is None: c.violate("TLC could not judge the reports: " + names); continue
            for x in names[:3]:
                if x < 0: c.violate("of the reports with %d to %d lines too few contain everything that was emitted" % (3 * (-x - 1) + 1, 3 * -x)); continue
                q = res[i][2][x - 1]
                c.violate("de-excitation of Z=%d A=%d from %d eV: no cascade emits photons in the 50 keV bins %s and neutrons in %s" % (q["Z"], q["A"], q["ex"], q["g"], q["n"]), q)
    # in between fission events: every history of two operations around a call, in fresh processes each
    if not c.violations:
        dec = [(55140, 8.0), (38096, .9), (53135, 17.0), (44104, 2.2)]
        reqs = session.requests(4, 230)
        rp = session.Replay(b, reqs, dec, [0, 21 + vlib.SEED], levels.gen(vlib.SEED * 17 + 3, m, "rich"))
        hs = session.generate(c, "cool", session.cfg(1, 4 if T else 2, 4, [1], 1, 3 if T else 2, ["new", "cgm", "yld", "cnew", "cleanup"]))
        hs = [h for h in hs if any(op[0] == "cgm" for op in h)]
        base = [[["new", 1, r, 1]] for r in range(1, 5)] + [[["yld", r, 1]] for r in range(1, 5)] + [[["cgm", d, 1]] for d in range(1, 5)]
        session.play(c, rp, [h + [["new", 1, 1 + i % 4, 1], ["cgm", 1 + i % 3, 1]] for i, h in enumerate(hs)], "cool", base)
        c.count("histories", len(hs))
    alls = [q for _, _, o in res for q in o]
    c.traces(len(alls))
    c.count("photon_lines", sum(len(q["g"]) for q in alls)); c.count("neutron_lines", sum(len(q["n"]) for q in alls)); c.count("without_lines", sum(1 for q in alls if not q["g"] and not q["n"]))
    for q in alls[:3]: c.sample(q)
    c.assumptions = ["emissions below 25 keV are not reported by design (at most two per cascade are assumed)", "more than three emissions that share bins are not resolved",
                     "level schemes are synthetic; masses are those of data/masses.dat"]


vlib.run_check("C23", body)
