#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels, freq, tk


def body(c):
    b = vlib.build()
    T = c.thorough
    rnd = random.Random(vlib.SEED * 13 + 22)
    obs = []
    # fragments: many pairs, no de-excitation
    rows = freq.anisotropies()
    npair = 100000 if T else 25000
    jobs = [(za, 0.0) for za in events.SF]
    for za in events.NI:
        row = rows.get(za, [1000] * 201)
        strong = [i for i in range(5, 201) if abs(row[i] - 1000) >= 150]
        if not T: strong = [i for i in strong if i <= 108] or strong       # more than one pre-fission neutron is slow
        off = [i for i in strong if i % 5]
        on = [i for i in strong if i % 5 == 0]
        # where the coefficient changes fastest
        var = sorted(range(5, 201 if T else 108), key=lambda i: -abs(row[i] - row[i // 10 * 10]) - abs(row[i] - row[min(200, i + 4)]))
        jobs += [(za, var[rnd.randrange(3)] / 10.0 + rnd.choice([0, .049, -.049, .02])), (za, rnd.choice(off) / 10.0 + rnd.choice([0, .049, -.049, .02])), (za, rnd.choice(on) / 10.0), (za, 2.53e-8)]
        if T: jobs += [(za, max(.01, rnd.choice(range(1, 108)) / 10.0 + rnd.choice([.04, -.04, 0]))) for _ in range(8)] + [(za, 20.0)]

    def frags(k):
        za, E = jobs[k]
        E = round(E, 10)
        rc, recs, log = events.drive(b, "p%d" % k, "data %s/data\nseed %d\nyld %d %r %d pairs\n" % (vlib.REPO, vlib.SEED * 100 + k, za, E, npair), {})
        B, pol, sign, par, n, c2 = freq.Bins(), [0] * 5, [0, 0], [0] * 4, 0, 0.0
        p = os.path.join(vlib.scratch(), "drv-p%d" % k, "pairs")
        if os.path.exists(p):
            for d, pl, ph in freq.pairs(p):
                if d is None or d[0] != d[0]: continue
                n += 1
                B.azimuth("azimuth", d)
                pol[min(4, int(abs(d[2]) * 5))] += 1; sign[d[2] > 0] += 1; c2 += d[2] * d[2]
                par[(pl > 0) * 2 + (ph > 0)] += 1
            os.remove(p)
        return za, E, n, rc, log, B.h.get("azimuth", [0] * 8), pol, sign, par, int(round(c2 / max(n, 1) * 1e6))

    for za, E, n, rc, log, az, pol, sign, par, c2 in vlib.parallel(frags, range(len(jobs))):
        what = "%d %s, %d fragment pairs: " % (za, "spontaneous fission" if E == 0 else "+ n (%r MeV)" % E, n)
        if rc or n < npair * .99: c.violate(what + "the library stopped (rc=%s): %s" % (rc, log[-300:])); continue
        obs.append((dict(k="cells", c=az, slack=0), what + "azimuth of the light fragment"))
        obs.append((dict(k="cells", c=par, slack=0), what + "parities of the fragments"))
        # the cumulated distribution is tabulated in 49 steps of the cosine: 0.6 % between the hemispheres
        obs.append((dict(k="cells", c=sign, slack=0 if E == 0 else 6000), what + "hemisphere of the light fragment"))
        if E == 0: obs.append((dict(k="polar", c=pol, b=1000, slack=0), what + "|cos| of the light fragment"))
        else: obs.append((dict(k="beam", c=pol, row=rows.get(za, [1000] * 201), E=int(round(E * 1000 + 1e-6)), slack=1500), what + "|cos| of the light fragment to the beam"))
        obs.append((dict(k="cos2", mean=c2, n=n, row=rows.get(za, [1000] * 201) if E else [1000], E=int(round(E * 1000 + 1e-6)), slack=500 if E else 0, c=[]), what + "mean cos^2 of the light fragment to the beam"))
        c.count("fragment_pairs", n)
    nfr = len(obs)

    per = 3000 if T else 600
    raws = levels.gen(vlib.SEED * 5 + 22, events.masses(), "rich")

    def work(w):
        r = random.Random(vlib.SEED * 97 + w)
        q = []
        for i in range(per):                              # mostly reactions that are quick to simulate
            za = r.choice(events.SF + events.NI)
            q.append(dict(seed=r.randint(1, 2 ** 30), za=za, E=0.0 if za in events.SF else 2.53e-8 if i % 12 else events.energies(r), T=0.0, W=-1.0))
        rc, recs, log = events.drive(b, "e%d" % w, events.script(q, False), raws if w % 2 else {}, timeout=800)
        B, n = freq.Bins(), 0
        for r in recs:
            if r["op"] != "ev": continue
            n += 1
            try: freq.directions(r, B, r["za"] in events.SF)
            except (TypeError, IndexError): pass          # not finite, or not what the counts announce: C08
        return B, n, rc, log
    B = freq.Bins()
    for b1, n, rc, log in vlib.parallel(work, range(vlib.NPROC * (2 if T else 1))):
        if rc or n != per: c.violate("the library stopped (rc=%s) after %d events: %s" % (rc, n, log[-300:]))
        B.merge(b1); c.traces(n)
    for k, h in sorted(B.h.items()): obs.append((dict(k="cells", c=h, slack=0), k))
    if len(obs) - nfr < 50: c.violate("only %d kinds of directions were seen" % (len(obs) - nfr))
    for r, bad in tk.judge("TraceFreq", [o for o, _ in obs], "fq"):
        c.add_tlc(r)
        for i, names in bad:
            if i is None: c.violate("TLC could not judge the counts: " + names); continue
            o, what = obs[i]
            c.violate("%s: counts %s are not distributed as they should (cells %s)" % (what, o["c"] or o.get("mean"), names), o)
    c.count("distributions_judged", len(obs))
    c.count("directions", sum(sum(o["c"]) for o, _ in obs))
    for o, what in obs[:2] + obs[nfr:nfr + 2]: c.sample(dict(what=what, c=o["c"]))
    c.assumptions = ["counts are accepted within six standard deviations, plus 0.15% (0.6% for the hemispheres) where the sampled distribution is tabulated in 49 steps",
                     "photon directions are those reported by the library (frame of the fragment)"]


vlib.run_check("C22", body)
