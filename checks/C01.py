#!/usr/bin/env python3
import os, sys, json, random, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels


def text(kind, v):
    if kind in NEXT: return NEXT[kind]
    if kind != "num": return kind
    s = "%s%d.%08d" % ("-" if v < 0 else "", abs(v) // 10**8, abs(v) % 10**8)
    return s


def sweeplist(c, rnd, E):
    """(interface, energy, pairs, lowest, highest target, event served before or None)"""
    E1 = rnd.choice([e for e in E if 0 < e <= EMAX]); E2 = rnd.choice([e for e in E if e > EMAX])
    zs = range(0, 121) if c.thorough else range(86, 102)
    out = []
    for z in zs:
        lo, hi = z * 1000, z * 1000 + 999
        if not 90 <= z <= 98 and not c.thorough: hi = lo + 400
        for e in (0, E1, E2): out.append(("ev", e, 0, lo, hi, None))
        out.append(("ev", E1, 0, -hi, -lo, None))
    for z in range(80 if c.thorough else 90, 105 if c.thorough else 99):
        lo, hi = z * 1000 + 215, z * 1000 + 275
        if c.thorough or z % 3 == rnd.randrange(3):
            for e in (0, E1): out.append(("cev", e, 0, lo, hi, None))
        lo, hi = z * 1000 + 228, z * 1000 + 256
        w = rnd.choice([(92235, "1.2"), (98252, "0"), (94239, "17"), (94240, "0")])
        for e in (0, E1): out.append(("ev", e, 0, lo, hi, w))
        out.append(("yld", rnd.choice((0, E1, E2)), rnd.choice((1, 999, 5000)), lo, hi, None))
    return out


def body(c):
    b = vlib.build()
    rnd = random.Random(vlib.SEED)
    zs = set(events.SF + events.NI)
    near = {z + d for z in zs for d in (-1, 1)} - zs
    far = {1, 92, 1001, 6012, 90232, 95241, 96244, 99999, 100257, 92 * 1000, 235, 240094, 922350, 80204}
    other = sorted(near) + sorted(far) + [rnd.randint(1, 120000) for _ in range(4)]
    other = rnd.sample(other, len(other) if c.thorough else 16) + [0]
    E = [0, 1, 3, 100000000, EMAX, EMAX + 1, EMAX + 100000000, rnd.randint(2, EMAX - 1)]
    if c.thorough: E += [2, 10, EMAX - 1, EMAX // 2] + [rnd.randint(2, EMAX - 1) for _ in range(6)]
    sweeps = sweeplist(c, rnd, E)
    ifs = ["ev", "cev", "yld", "cli", "cliyld"]
    cfg = "SPECIFICATION GSpec\nINVARIANT Sane\nINVARIANT Emit\nINVARIANT EmitSweep\nCHECK_DEADLOCK FALSE\nCONSTANTS\n ZAIDs = {%s}\n Energies = {%s}\n  Interfaces = {%s}\n Ranges <- AllRanges\n" % (
        ",".join(map(str, sorted(set(other) | zs))), ",".join(map(str, sorted(set(E)))), ",".join('"%s"' % i for i in ifs))
    mod = "---- MODULE GateRun ----\nEXTENDS Gate\nAllRanges == {%s}\n====\n" % ",".join("<<%d,%d>>" % r for r in sorted({x[3:5] for x in sweeps}))
    r = vlib.tlc("GateRun", cfg="gate", files={"gate.cfg": cfg, "GateRun.tla": mod})
    if not r.clean:
        print(r.out[-2000:]); sys.exit(2)
    c.add_tlc(r)
    reqs = [json.loads(json.loads(l)) for l in r.out.splitlines() if l.startswith('"[')]
    served = {(tuple(q[1]), q[2]): sorted(q[3]) for q in reqs if q[0] == "sweep"}
    reqs = [q for q in reqs if q[0] != "sweep"]
    # unsupported nuclides: every energy through one interface, the others sampled
    def keep(q):
        za, kind, v, i, st = q
        if c.thorough: return True
        if za in zs: return st == "served" and (i == "ev" or rnd.random() < .5) or st == "refused" and (i in ("ev", "yld") or rnd.random() < .25)
        return rnd.random() < (.35 if za > 0 else .12)
    reqs = [q for q in sorted(reqs, key=str) if keep(q)]
    lv = levels.text(levels.gen(vlib.SEED, events.masses(), "prompt"))

    def run(j):
        n, (za, kind, v, i, st) = j
        d = vlib.sub("g%d" % n)
        e = text(kind, v)
        with open(d + "/discreteLevels.dat", "w") as f: f.write(lv)
        if i in ("cli", "cliyld"):
            cmd = [b["cli"], "-i", str(za), "-e", e, "-n", "1" if i == "cli" else "-2", "-s", str(3 + n % 50), "-f", "f", "-t", "-1"]
        else:
            with open(d + "/s", "w") as f:
                f.write("data %s/data\nseed %d\n%s\n" % (vlib.REPO, 3 + n % 50,
                        {"ev": "ev 1 %d %s 0 -1", "cev": "cev %d %s 0 -1", "yld": "yld %d %s 2 f"}[i] % (za, e)))
            cmd = [b["drv"], "s", "o"]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vlib.ENV, timeout=120)
            rc, err = p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        made = False
        if i in ("ev", "cev"):
            o = open(d + "/o").read() if os.path.exists(d + "/o") else ""
            recs = [json.loads(x) for x in o.splitlines() if x.endswith("}")]
            made = any(x["op"] == i for x in recs)
            ok = made and (i == "cev" or (recs[0]["za"] == za and abs(recs[0]["E"] - float(e)) < 1e-12))
        else:
            f = d + ("/f.0" if i.startswith("cli") else "/f")
            ls = [x for x in open(f).read().splitlines() if not x.startswith("#")] if os.path.exists(f) else []
            made = len(ls) > 0
            ok = len(ls) == 4 if "yld" in i else len(ls) >= 4
        subprocess.run(["rm", "-rf", d])
        good = (rc == 0 and ok) if st == "served" else (rc not in (0, "timeout") and isinstance(rc, int) and rc > 0 and err.strip() != "" and not made)
        return good, "request za=%s E=%s through %s: model says %s, program: status %s, produced=%s, stderr=%r" % (za, e, i, st, rc, made, err[:100])
    for good, what in vlib.parallel(run, list(enumerate(reqs))):
        if not good: c.violate(what)
    def sweep(j):
        n, (how, ev, n1, lo, hi, after) = j
        d = vlib.sub("s%d" % n)
        with open(d + "/discreteLevels.dat", "w") as f: f.write(lv)
        with open(d + "/s", "w") as f:
            f.write("data %s/data\nseed 3\n" % vlib.REPO)
            if after: f.write("ev 1 %d %s 0 -1\n" % after)
            f.write("gate %s %s %d %d %d\n" % (how, text("num", ev), n1, lo, hi))
        p = subprocess.run([b["drv"], "s", "o"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vlib.ENV, timeout=800)
        recs = [json.loads(x) for x in open(d + "/o").read().splitlines() if x.endswith("}")]
        got = [x for x in recs if x["op"] == "gate"]
        subprocess.run(["rm", "-rf", d])
        if p.returncode or not got: return False, "sweep %s %s did not end: status %s" % (how, (lo, hi), p.returncode)
        got, want = got[0]["not_refused"], served[(lo, hi), ev]
        return got == [[z, "s"] for z in want], "targets %d..%d at %s MeV through %s (n=%d, after %s): the model serves %s and refuses the rest with an error; not refused by the program: %s" % (
            lo, hi, text("num", ev), how, n1, after, want, got[:8])
    for good, what in vlib.parallel(sweep, list(enumerate(sweeps))):
        if not good: c.violate(what)
    c.count("sweep_requests", sum(x[4] - x[3] + 1 for x in sweeps))
    c.traces(len(reqs) + len(sweeps))
    c.count("requests_served", sum(1 for q in reqs if q[4] == "served"))
    c.count("requests_refused", sum(1 for q in reqs if q[4] == "refused"))
    for q in rnd.sample(reqs, 3): c.sample(q)
    c.assumptions = ["energies on a 1e-8 MeV grid plus NaN and infinities; ZAIDs: the supported ones, their neighbours and a sample of others, with both signs"]


EMAX = 2000000000
NEXT = {"eps": "1e-12", "-eps": "-1e-12", "max+": "20.00000000001"}
vlib.run_check("C01", body)
