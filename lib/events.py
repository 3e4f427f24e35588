"""Event corpora: drive the real library, project the records onto the vocabulary of
FissionEvent.tla and let TLC decide which events are behaviours of it."""
import json, math, os, random, re, subprocess
import vlib, levels

AMU = 931.494013
MN = 1.00866491578 * AMU
SF = [94238, 94240, 94242, 94244, 98252, 98254]
NI = [92233, 92234, 92235, 92238, 93237, 94239, 94241]

_masses = None


def masses():
    global _masses
    if _masses is None:
        _masses = levels.read_masses(vlib.REPO + "/data/masses.dat")
    return _masses


class Out(Exception):
    """a value that is not finite or not representable"""


def I(x, scale=1.0):
    if isinstance(x, str) or x != x:
        raise Out()
    v = x * scale
    if abs(v) > 2.0e9:
        raise Out()
    return int(round(v))


def tm(t):
    """time as <<mantissa, exponent>>"""
    if isinstance(t, str):
        raise Out()
    if t <= 0:
        return [0, 0] if t == 0 else [-1, 0]
    m, e = ("%.7e" % t).split("e")
    return [int(round(float(m) * 1e7)), int(e)]


def vec(v, s):
    return [I(x, s) for x in v]


def nmom(e, u, v, w):
    if isinstance(e, str) or e < 0:
        raise Out()
    p = math.sqrt(2 * MN * e)
    return [I(p * x, 1e4) for x in (u, v, w)]


def frag(F):
    n = math.sqrt(sum(x * x for x in F["pre"]))
    return dict(A=F["A"], Z=F["Z"], U=I(F["U"], 1e6), J2=I(F["J"], 2) if abs(F["J"] * 2 - round(F["J"] * 2)) < 1e-6 else -1, P=F["P"],
                KE=I(F["KE"], 1e6), p=vec(F["pre"], 1e4), pabs=I(n, 1e4), dir=vec(F["dir"], 1e6))


def project(r, ev, photons=True, ref=None):
    """lines of one event. ev: the request (za, E, T, W); ref: the same event requested with time 0"""
    try:
        za, E = ev["za"], ev["E"]
        if r["za"] != za or r["E"] != E:
            raise Out()
        out = [dict(k="cap", fin=True, Z=za // 1000, A=za % 1000, E=0 if E == 0 else max(1, I(E, 1e6)),
                    p=[0, 0, I(math.sqrt(2 * MN * E), 1e4)], win=tm(ev["W"]) if ev["W"] > 0 else [0, 0])]
        for i in range(r["npre"]):
            d = (r["pu"][i], r["pv"][i], r["pw"][i])
            out.append(dict(k="pre", e=I(r["pE"][i], 1e6), d=vec(d, 1e6), p=nmom(r["pE"][i], *d)))
        out.append(dict(k="sci", L=frag(r["LF"]), H=frag(r["HF"]), npre=r["npre"]))
        no = go = 0
        for f, F in ((1, r["LF"]), (2, r["HF"])):
            # the totals reported for the event, split as reported for the fragments
            nu, ng = F["nu"], F["ng"]
            if f == 2:
                nu, ng = r["nn"] - no, r["ngam"] - go
            for i in range(no, no + nu):
                d = (r["nu"][i], r["nv"][i], r["nw"][i])
                c = (r["cu"][i], r["cv"][i], r["cw"][i])
                out.append(dict(k="n", f=f, ec=I(r["cE"][i], 1e6), el=I(r["nE"][i], 1e6), cd=vec(c, 1e6), d=vec(d, 1e6),
                                pc=nmom(r["cE"][i], *c), p=nmom(r["nE"][i], *d), ok=r["nT"][i] == ev["T"]))
            no += nu
            pabs = I(math.sqrt(sum(x * x for x in F["post"])), 1e4)
            if photons:
                for i in range(go, go + ng):
                    if ref is None:
                        t = tm(r["gT"][i] - ev["T"]) if ev["T"] == 0 else tm(0.0)
                    else:
                        t = tm(ref["gT"][i]) if r["gT"][i] == ev["T"] + ref["gT"][i] else [-1, 0]
                    out.append(dict(k="g", f=f, e=I(r["gE"][i], 1e6), d=vec((r["gu"][i], r["gv"][i], r["gw"][i]), 1e6), pabs=pabs, t=t))
            go += ng
            out.append(dict(k="set", f=f, nu=F["nu"], ng=F["ng"] if photons else 0, p=vec(F["post"], 1e4), ke=I(F["KEp"], 1e6)))
        return out
    except (Out, IndexError):
        return [dict(k="cap", fin=False)]


def table(nuclides, raw, rawschemes=True):
    """mass and level tables for TLC, restricted to a band around the nuclides used"""
    m = masses()
    zs = sorted({z for z, a in nuclides})
    zmin, zmax = zs[0], zs[-1]
    me, m4, si, a0, schemes = [], [], [], [], []
    for z in range(zmin, zmax + 1):
        aa = [a for zz, a in nuclides if zz == z]
        if not aa:
            me.append([]); m4.append([]); si.append([]); a0.append(0)
            continue
        lo, hi = min(aa) - 13, max(aa) + 2
        rme, rm4, rsi = [], [], []
        for a in range(lo, hi + 1):
            za = 1000 * z + a
            if za in m:
                rme.append(int(round(m[za] * 1e6))); rm4.append(int(round(4 * (a * AMU + m[za]))))
            else:
                rme.append(0); rm4.append(0)
            if za in raw and rawschemes:
                schemes.append([dict(E=lv["E"], J2=lv["J2"], P=lv["P"], T=tm(max(0.0, lv["T"])),
                                     br=[[f, w, int(round(c * 1000))] for f, w, c in lv["br"]]) for lv in raw[za]])
                rsi.append(len(schemes))
            else:
                rsi.append(0)
        me.append(rme); m4.append(rm4); si.append(rsi); a0.append(lo - 1)
    return dict(z0=zmin - 1, a0=a0, me=me, m4=m4, si=si, schemes=schemes)


# ---------------------------------------------------------------- corpora
def energies(rnd):
    k = rnd.random()
    if k < .10: return 2.53e-8
    if k < .14: return 20.0
    if k < .18: return rnd.choice([1e-5, 1e-9, 1e-3, 0.1])
    if k < .40: return round(rnd.uniform(0.01, 5.5), 3)
    if k < .62: return round(rnd.uniform(5.5, 12.5), 3)
    return round(rnd.uniform(12.5, 20.0), 3)


WINDOWS = [-1.0, -1.0, -1.0, 1e-8, 1e-9, 5e-8, 1e-6, 1e-3, 10.0, 0.0]


def corpus(n, salt=0, windows=True, times=False):
    """n requests, every reaction in turn"""
    rnd = random.Random(vlib.SEED * 1000003 + salt)
    out = []
    alls = SF + NI + NI           # neutron-induced twice as often
    for i in range(n):
        za = alls[i % len(alls)]
        E = 0.0 if za in SF else energies(rnd)
        out.append(dict(seed=rnd.randint(1, 2000000), za=za, E=E, T=rnd.choice([0.0, 1e-3, 2.5, 1e-6]) if times and rnd.random() < .15 else 0.0,
                        W=rnd.choice(WINDOWS) if windows else -1.0))
    rnd.shuffle(out)
    return out


def script(reqs, paired=True):
    lines = ["data " + vlib.REPO + "/data"]
    for q in reqs:
        if q["T"] != 0 and paired:
            lines += ["seed %d" % q["seed"], "ev 1 %d %r 0 %r" % (q["za"], q["E"], q["W"])]
        lines += ["seed %d" % q["seed"], "ev 0 %d %r %r %r" % (q["za"], q["E"], q["T"], q["W"])]
    return "\n".join(lines) + "\n"


def drive(b, name, text, raw, timeout=400, env=None):
    d = vlib.sub("drv-" + name)
    with open(d + "/discreteLevels.dat", "w") as f:
        f.write(levels.text(raw))
    with open(d + "/script", "w") as f:
        f.write(text)
    with open(d + "/log", "w") as log:
        try:
            rc = subprocess.run([b["drv"], "script", "out"], cwd=d, stdout=log, stderr=log, env=env or vlib.ENV, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    recs = []
    if os.path.exists(d + "/out"):
        for l in open(d + "/out"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                break
    return rc, recs, open(d + "/log", errors="replace").read()[-1500:]


def judge(c, laws, n, photons=True, windows=True, times=False, kinds=None, salt=0, want_kepost=False):
    """generate n events, judge the laws on them. The core of the event checks."""
    b = vlib.build()
    W = vlib.NPROC
    kinds = kinds or ["rich"] * 6 + ["bare", "rich"]
    rnds = [corpus(n // W + 1, salt * 97 + w, windows, times) for w in range(W)]

    def work(w):
        for q in rnds[w]:
            q["levels"] = [vlib.SEED * 31 + w + salt * 7, kinds[w % len(kinds)]]     # how to regenerate the level file
        raw = levels.gen(vlib.SEED * 31 + w + salt * 7, masses(), kinds[w % len(kinds)])
        rc, recs, log = drive(b, "w%d" % w, script(rnds[w]), raw)
        return judge_records(c, laws, rnds[w], rc, recs, log, raw, photons, "w%d" % w)

    res = vlib.parallel(work, range(W))
    tot = dict(kepost=0, conv=0)
    for r in res:
        for k in tot: tot[k] += r[k]
    c.cov["fragments_with_kepost_deviation"] = tot["kepost"]
    c.cov["silent_internal_conversions"] = tot["conv"]
    if want_kepost and tot["kepost"]:
        c.finding("KEPOST", "%d fragments" % tot["kepost"])
    return tot


def judge_records(c, laws, reqs, rc, recs, log, raw, photons, name):
    evs, used, meta = [], set(), []
    it = iter([r for r in recs if r["op"] == "ev"])
    ended = bool(recs) and recs[-1]["op"] == "end" and rc == 0
    for q in reqs:
        ref = next(it, None) if q["T"] != 0 else None
        r = next(it, None)
        if r is None:
            break
        evs.append(project(r, q, photons, ref))
        meta.append((q, r))
        za = q["za"]
        used.add((za // 1000, za % 1000)); used.add((za // 1000, za % 1000 + 1))
        for F in (r["LF"], r["HF"]):
            if 0 < F["Z"] < 130 and 0 < F["A"] < 300:
                used.add((F["Z"], F["A"]))
    if not ended:
        q = reqs[len(evs)] if len(evs) < len(reqs) else None
        c.violate("the library stopped (rc=%s) while generating %s: %s" % (rc, q, log[-300:]), dict(request=q))
    if not evs:
        return dict(kepost=0, conv=0)
    # "bare" schemes only matter where energy is judged
    need = photons and (set(laws) & {"decay", "gkin", "age", "levels"})
    data = table(used, raw if need else {})
    data.update(judge=sorted(laws), events=evs)
    r = tlc_events(data, name)
    kep = conv = 0
    if r.rejected is None:
        c.violate("TLC could not evaluate the trace: " + r.out[-600:])
        return dict(kepost=0, conv=0)
    if r.rejected:
        r2 = tlc_events(data, name + "r")           # report a rejection only if it repeats
        if r2.rejected == r.rejected:
            for i in sorted(r.rejected)[:5]:
                l = r.reached.get(i, 1)
                ln = evs[i - 1][l - 1] if l <= len(evs[i - 1]) else "end"
                c.violate("event %s is not a behaviour of FissionEvent (laws %s): stuck at step %d %s" % (meta[i - 1][0], sorted(laws), l, str(ln)[:400]),
                          dict(request=meta[i - 1][0], record=meta[i - 1][1], step=l, line=ln))
    c.add_tlc(r)
    c.traces(len(evs))
    c.count("trace_steps", sum(len(e) for e in evs))
    c.count("events_with_prefission_neutrons", sum(1 for _, x in meta if x["npre"]))
    c.count("neutrons", sum(x["nn"] for _, x in meta))
    c.count("photons", sum(x["ngam"] for _, x in meta))
    if meta:
        q, x = meta[0]
        c.sample(dict(request=q, LF=[x["LF"]["Z"], x["LF"]["A"], x["LF"]["U"]], HF=[x["HF"]["Z"], x["HF"]["A"], x["HF"]["U"]],
                      neutrons=x["nn"], photons=x["ngam"], prefission=x["npre"], steps=[s["k"] for s in evs[0]]))
    return dict(kepost=r.kepost, conv=r.conv)


def tlc_events(data, name):
    r = vlib.tlc("TraceEvent", files={"data.json": data}, name=name, heap="2g")
    r.rejected, r.reached, r.kepost, r.conv = None, {}, 0, 0
    out = r.out
    m = re.search(r'"REJECTED"\s*,\s*(\{.*?\})\s*,\s*(.*?)>>', out, re.S)
    if m:
        r.rejected = {int(x) for x in expand(m.group(1))}
        body = m.group(2)
        if body.strip().startswith("("):
            for a, v in re.findall(r"(\d+) :> (\d+)", body):
                r.reached[int(a)] = int(v)
        else:                                      # a function over 1..n prints as a tuple
            for i, v in enumerate(re.findall(r"\d+", body)):
                r.reached[i + 1] = int(v)
    m = re.search(r'"KEPOST", (\d+)', out)
    if m: r.kepost = int(m.group(1))
    m = re.search(r'"CONVERSIONS", (\d+)', out)
    if m: r.conv = int(m.group(1))
    return r


def expand(s):
    out = []
    for part in re.findall(r"(\d+)\.\.(\d+)|(\d+)", s):
        if part[2]: out.append(part[2])
        else: out += range(int(part[0]), int(part[1]) + 1)
    return out
