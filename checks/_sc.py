import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, scission, tk

NAMES = dict(mass=["mass of the heavy fragment"], tke=["total kinetic energy"],
             spin=["spin of the light fragment", "spin of the heavy fragment", "spins of both fragments", "spin of either fragment"],
             charge=["charge of the light fragment", "charge of the light fragment, even ones first", "charge of the light fragment, even neutron numbers first"])
SLACK = dict(mass=100, tke=150, spin=100, charge=150)


def add(a, b):
    return dict(c=[x + y for x, y in zip(a["c"], b["c"])], t=[x + y for x, y in zip(a["t"], b["t"])], s=a["s"] + b["s"], n=a["n"] + b["n"])


NONE = dict(c=[0] * 20, t=[0] * 11, s=0, n=0)


def main(pid, law, salt, quick, thorough, assumptions):
    def body(c):
        b = vlib.build()
        n, nsf = thorough if c.thorough else quick
        js = scission.jobs(c.thorough, salt, n, nsf)
        R = scission.judge(c, b, [law], js)
        obs = []
        for q in range(len(NAMES[law])):
            groups = {}
            for k, (za, E, npre, seed, r, o) in enumerate(R):
                for band, h in enumerate(r[law][min(q, 2)]):
                    band, par = band // 2, ("odd", "even")[band % 2]
                    if q == 3: h = add(r["spin"][0][2 * band + (par == "even")], r["spin"][1][2 * band + (par == "even")])
                    if law == "mass": band = -1          # the bands are bands of mass
                    if law == "charge": kind = ("%s light masses, excitation %s" % (par, "below 8 MeV" if o["PE"] < 8000 else "8 to 20 MeV" if o["PE"] < 20000 else "above 20 MeV"))
                    else: kind = "incident energies " + ("0" if E == 0 else "0 to 1 eV" if E < 1e-6 else "0.5 to 1 MeV" if E < 1 else "1 to 6 MeV" if E < 6 else "6 to 13 MeV" if E < 13 else "13 to 20 MeV")
                    for g in ((0, "run %d" % k, "%d at %r MeV after %d pre-fission neutrons (yields of %d pairs, seed %d)" % (za, E, npre, r["n"], seed)), (1, za, "all runs of %d" % za),
                              (2, npre, "all runs with %d pre-fission neutrons" % npre), (3, band, "all pairs whose heavy mass exceeds half by %d-%d" % (8 * band, 8 * band + 7)), (4, 0, "all pairs"), (5, kind, "all pairs: " + kind)):
                        if groups.get(g, NONE)["n"] + h["n"] <= 900000: groups[g] = add(groups.get(g, NONE), h)
            for g, h in sorted(groups.items(), key=lambda x: str(x[0])):
                if h["n"] < 200 or g[:2] == (3, -1): continue
                both = q == 2 and law == "spin"
                obs.append((dict(k="cells", c=h["c"][:16 if both else 20], slack=SLACK[law]), h["n"], "%s, %s" % (NAMES[law][q], g[2])))
                if not both: obs.append((dict(k="tails", c=h["t"], slack=SLACK[law]), h["n"], "%s, %s" % (NAMES[law][q], g[2])))
                if not both: obs.append((dict(k="mean", mean=int(round(h["s"] * 100.0 / h["n"])), n=h["n"], slack=SLACK[law] * 10 + 50), h["n"], "%s, %s" % (NAMES[law][q], g[2])))
        for r, bad in tk.judge("TraceFreq", [o for o, _, _ in obs], "fq"):
            c.add_tlc(r)
            for i, names in bad:
                if i is None: c.violate("TLC could not judge the counts: " + names); continue
                o, m, what = obs[i]
                if o["k"] == "mean": c.violate("%s: the mean position in its distribution over %d pairs is %.4f, not 0.5" % (what, m, o["mean"] / 1e6), o)
                elif o["k"] == "tails": c.violate("%s: %d pairs fall into the parts between 0, 0.1, 0.3, 1, 3, 10, 90, 97, 99, 99.7, 99.9, 100 %% of its distribution as %s" % (what, m, o["c"]), o)
                else: c.violate("%s: %d pairs fall into the equally likely parts of its distribution as %s" % (what, m, o["c"]), o)
        c.count("distributions_judged", len(obs)); c.count("runs", len(R))
        c.count("runs_with_prefission_neutrons", sum(1 for x in R if x[2]))
        for o, m, what in obs[:2]: c.sample(dict(what=what, pairs=m, **{k: o[k] for k in ("c", "mean") if k in o}))
        c.assumptions = assumptions + ["counts and means are accepted within six standard deviations", "yields of the library class; the runs of a corpus are seeded by VERIF_SEED"]
        if os.environ.get("VDEBUG"):
            for o, m, what in obs:
                if o["k"] == "cells": print("chi2/%d %.1f" % (len(o["c"]), sum((x - m / len(o["c"])) ** 2 / (m / len(o["c"])) for x in o["c"])), end=" ")
                elif o["k"] == "tails":
                    e = [.001, .002, .007, .02, .07, .8, .07, .02, .007, .002, .001]
                    print("tails %.1f" % sum((x - m * y) ** 2 / (m * y) for x, y in zip(o["c"], e)), end=" ")
                else: print("   mean %+.2f sigma" % ((o["mean"] - 5e5) / 288675 * m ** .5), m, what)
    vlib.run_check(pid, body)
