#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels, scission


def body(c):
    b = vlib.build()
    T = c.thorough
    D = scission.Data()
    R = scission.judge(c, b, ["share"], scission.jobs(T, 26, 4000 if T else 700, 8000 if T else 1200))
    # events
    rnd = random.Random(vlib.SEED * 41 + 26)
    reqs = []
    for k in range(6 if T else 2):
        for za in events.SF + events.NI:
            for E in [0.0] if za in events.SF else [2.53e-8, round(rnd.uniform(1, 12), 2), round(rnd.uniform(12, 20), 2)]: reqs.append((len(reqs), za, E))
    raw = levels.gen(vlib.SEED * 3 + 26, events.masses(), "bare")
    per = 40 if T else 14

    def work(q):
        k, za, E = q
        s = rnd.randint(1, 10 ** 8)
        rc, recs, log = events.drive(b, "e%d" % k, "data %s/data\n" % vlib.REPO + "".join("seed %d\nev 0 %d %r 0 -1\n" % (s + i, za, E) for i in range(per)), raw, timeout=300)
        recs = [r for r in recs if r["op"] == "ev"]
        if rc or len(recs) != per: return "the library stopped (rc=%s) for %d at %r MeV (seeds from %d): %s" % (rc, za, E, s, log[-300:])
        out = {}
        for i, r in enumerate(recs):
            L, H = r["LF"], r["HF"]
            out.setdefault(r["npre"], []).append((L["Z"], L["A"], L["KE"] + H["KE"], L["U"], L["J"], H["Z"], H["A"], H["U"], H["J"]))
        return za, E, s, out
    obs = []
    for r in vlib.parallel(work, reqs):
        if isinstance(r, str): c.violate(r); continue
        za, E, s, out = r
        for npre, ps in out.items():
            try: o = D.run(za, E, ps, ["share"], random.Random(1))
            except (ValueError, OverflowError, TypeError): o = None
            if o is None: c.violate("event of %d at %r MeV (seeds from %d): fragments that are not two fragments of the compound nucleus" % (za, E, s))
            else: obs.append((za, E, s, o))
    E2 = scission.tlc(c, [(x, o[3]) for x, o in enumerate(obs)], "ev", lambda k: "events of %d at %r MeV" % obs[k][:2])
    for kind, rs in (("yields", [(za, E, seed, r, o) for za, E, npre, seed, r, o in R]), ("events", [obs[k][:3] + (r, o) for k, r, o in E2])):
        for za, E, seed, r, o in rs:
            for k in sorted(r["unfair"])[:3]:
                p = o["pairs"][k - 1]
                c.violate("%s of %d at %r MeV (seed %d): Z=%d A=%d with %.3f MeV and Z=%d A=%d with %.3f MeV do not share %.3f MeV at the temperature ratio of rta.dat (%d of %d pairs)"
                          % (kind, za, E, seed, p[0], p[1], p[3] / 1e3, p[5], p[6], p[7] / 1e3, (p[3] + p[7]) / 1e3, len(r["unfair"]), r["n"]), p)
        c.count("pairs_from_" + kind, sum(x[3]["n"] for x in rs))
    c.count("nuclides_without_level_density_entry", sum(1 for x in R for u in x[5]["nuc"] if not u["ldp"]))
    for x in R[:2]: c.sample(dict(target=x[0], E=x[1], pair=x[5]["pairs"][0]))
    c.assumptions = ["shares are compared to 6 keV + 1/1500 of the total", "the iteration may stop at any iterate whose level-density parameter changed by at most 0.01 (documented by the manual's algorithm)",
                     "ldp.dat and rta.dat are the specification's data"]


vlib.run_check("C26", body)
