"""Runs in the toolkit's Python: reads jobs.json ([{file, first, ask}]), calls CGMFtk and writes what it
answers as scaled integers. Usage: tkprobe.py TOOLS jobs.json out.json"""
import sys, json, math, io, contextlib, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import numpy as np
from CGMFtk import histories as H
from CGMFtk import yields as Y

BAD = -2000000000


def sc(x, k):
    """x*k as an integer, BAD if it is not (nearly) one when exact is asked for"""
    try:
        x = float(x)
    except Exception:
        return BAD
    if x != x or math.isinf(x) or abs(x * k) > 1.9e9: return BAD
    return int(round(x * k))


def ex(x, k):
    v = sc(x, k)
    return v if v != BAD and abs(float(x) * k - v) < 1e-5 * max(1, abs(v) * 1e-6) else BAD


def lst(xs, k):
    if hasattr(xs, "__len__") and not isinstance(xs, str): return [lst(x, k) for x in xs]
    return ex(xs, k)


def gtok(x):
    x = float(x)
    if x == 0: return [0, 0]
    if x != x or math.isinf(x): return [-9, 1]
    m, e = ("%.5e" % abs(x)).split("e")
    v = int(m.replace(".", ""))
    if abs(float(m) * 10.0 ** int(e) - abs(x)) > 1e-12 * abs(x): return [-9, 2]
    return [-1, -v if x < 0 else v, int(e)]


def ages(xs):
    return [[gtok(t) for t in l] for l in xs]


READ = dict(
    nfrag=lambda h: [ex(h.getNumberFragments(), 1)], nev=lambda h: [ex(h.getNumberEvents(), 1)], window=lambda h: gtok(h.getTimeCoincidenceWindow()),
    A=lambda h: lst(h.getA(), 1), Z=lambda h: lst(h.getZ(), 1), N=lambda h: lst(h.getN(), 1), U=lambda h: lst(h.getU(), 1000), J=lambda h: lst(h.getJ(), 2),
    P=lambda h: lst(h.getP(), 1), KEpre=lambda h: lst(h.getKEpre(), 1000), KEpost=lambda h: lst(h.getKEpost(), 1000),
    nu=lambda h: lst(h.getNu(), 1), nug=lambda h: lst(h.getNug(), 1), nuLF=lambda h: lst(h.getNuLF(), 1), nuHF=lambda h: lst(h.getNuHF(), 1),
    nuEvent=lambda h: lst(h.getNuEvent(), 1), nutot=lambda h: lst(h.getNutot(), 1), preNu=lambda h: lst(h.getPreFissionNu(), 1),
    nugLF=lambda h: lst(h.getNugLF(), 1), nugHF=lambda h: lst(h.getNugHF(), 1), nugtot=lambda h: lst(h.getNugtot(), 1),
    TKEpre=lambda h: lst(h.getTKEpre(), 1000), TKEpost=lambda h: lst(h.getTKEpost(), 1000), TXE=lambda h: lst(h.getTXE(), 1000),
    nElab=lambda h: lst(h.getNeutronElab(), 1000), nEcm=lambda h: lst(h.getNeutronEcm(), 1000), gElab=lambda h: lst(h.getGammaElab(), 1000),
    gAges=lambda h: ages(h.getGammaAges()), labDir=lambda h: lst(h.getLabNeutronDircos(), 1000), cmDir=lambda h: lst(h.getcmNeutronDircos(), 1000),
    preE=lambda h: lst(h.getPreFissionNeutronElab(), 1000), preDir=lambda h: lst(h.getPreFissionNeutronDircos(), 1000),
    momPre=lambda h: lst(h.getFragmentMomentumPre(), 1000), momPost=lambda h: lst(h.getFragmentMomentumPost(), 1000),
    ALF=lambda h: lst(h.getALF(), 1), ZLF=lambda h: lst(h.getZLF(), 1), NLF=lambda h: lst(h.getNLF(), 1), ULF=lambda h: lst(h.getULF(), 1000),
    JLF=lambda h: lst(h.getJLF(), 2), PLF=lambda h: lst(h.getPLF(), 1), KELF=lambda h: lst(h.getKELF(), 1000),
    AHF=lambda h: lst(h.getAHF(), 1), ZHF=lambda h: lst(h.getZHF(), 1), NHF=lambda h: lst(h.getNHF(), 1), UHF=lambda h: lst(h.getUHF(), 1000),
    JHF=lambda h: lst(h.getJHF(), 2), PHF=lambda h: lst(h.getPHF(), 1), KEHF=lambda h: lst(h.getKEHF(), 1000))


def guard(fn):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return dict(ok=True, v=fn())
    except SystemExit as e:
        return dict(ok=False, v=[], why="exit %s" % e)
    except Exception as e:
        return dict(ok=False, v=[], why="%s: %s" % (type(e).__name__, e))


def micro(xs):
    return [sc(x, 1e6) for x in xs]


def pairs(xy, kx, ky):
    return [[ex(x, kx), sc(y, ky)] for x, y in zip(*xy)]


def grid(a, b, n):
    return [10 ** (a + (b - a) * i / (n - 1)) for i in range(n)]


def spec(xy, edges):
    """contents of the bins (value times width), and the grid points"""
    x, y = xy
    if len(x) != len(edges) - 1 or len(y) != len(x): return [BAD]
    for i in range(len(x)):
        if abs(x[i] - .5 * (edges[i] + edges[i + 1])) > 1e-9 * x[i]: return [BAD]
    return [sc(v * (edges[i + 1] - edges[i]), 1e6) for i, v in enumerate(y)]


def observe(h, a):
    """a: the thresholds, times and selections to ask with (see lib/tk.py)"""
    th, W, w2 = a["th"], [float(t) for t in a["times"]], [float(t) for t in a["win"]]
    o = {}
    def put(name, fn): o[name] = guard(fn)
    one = lambda v: [sc(v, 1000 * 1000)]
    for m in ("nubar", "nubartot", "preFissionNubar", "meanNeutronElab", "meanNeutronElabLF", "meanNeutronElabHF", "meanNeutronElabFragments",
              "meanNeutronEcmFragments", "meanNeutronEcmLF", "meanNeutronEcmHF", "meanPreFissionNeutronElab", "meanGammaElab", "meanGammaElabLF", "meanGammaElabHF", "nubarg", "nubargtot"):
        put(m, lambda m=m: one(getattr(h, m)()))
    put("nubargTh", lambda: [sc(h.nubarg(Eth=t / 1000.), 1e6) for t in th])
    put("nubargtotTh", lambda: [sc(h.nubargtot(Eth=t / 1000.), 1e6) for t in th])
    for m in ("nubarg", "nubargtot"):
        put(m + "W", lambda m=m: micro(getattr(h, m)(timeWindow=np.array(W))[1]))
        put(m + "L", lambda m=m: micro(getattr(h, m)(timeWindow=W)[1]))
        put(m + "WTh", lambda m=m: [micro(getattr(h, m)(timeWindow=np.array(W), Eth=t / 1000.)[1]) for t in th])
        put(m + "D", lambda m=m: micro(getattr(h, m)(timeWindow=True)[1]))
    put("nuCut", lambda: [lst(h.getNuEnergyCut(t / 1000.), 1) for t in th])
    put("nugCut", lambda: [lst(h.getNugEnergyCut(t / 1000.), 1) for t in th])
    put("Pnu", lambda: micro(h.Pnu()[1]) if list(h.Pnu()[0]) == list(range(len(h.Pnu()[1]))) else [BAD])
    put("Pnug", lambda: micro(h.Pnug()[1]) if list(h.Pnug()[0]) == list(range(len(h.Pnug()[1]))) else [BAD])
    put("PnuTh", lambda: [micro(h.Pnu(Eth=t / 1000.)[1]) for t in th])
    put("PnugTh", lambda: [micro(h.Pnug(Eth=t / 1000.)[1]) for t in th])
    put("nubarA", lambda: pairs(h.nubarA(), 1, 1e6))
    put("nubargA", lambda: pairs(h.nubargA(), 1, 1e6))
    put("nubargATh", lambda: [pairs(h.nubargA(Eth=t / 1000.), 1, 1e6) for t in th])
    put("UA", lambda: pairs(h.UA(), 1, 1e6)); put("TKEA", lambda: pairs(h.TKEA(), 1, 1e6)); put("spinA", lambda: pairs(h.spinA(), 1, 1e6))
    put("nubarTKE", lambda: pairs(h.nubarTKE(), 1000, 1e6)); put("nubargTKE", lambda: pairs(h.nubargTKE(), 1000, 1e6))
    put("UTKE", lambda: pairs(h.UTKE(), 1000, 1e6)); put("spinTKE", lambda: pairs(h.spinTKE(), 1000, 1e6))
    gn, gg = grid(-3, 2, 100), grid(-1, 1, 200)
    put("pfns", lambda: spec(h.pfns(), gn)); put("pfnsTh", lambda: [spec(h.pfns(Eth=t / 1000.), gn) for t in th])
    put("pfgs", lambda: spec(h.pfgs(), gg)); put("pfgsTh", lambda: [spec(h.pfgs(Eth=t / 1000.), gg) for t in th])
    put("pfgsW", lambda: spec(h.pfgs(minTime=w2[0], maxTime=w2[1]), gg))
    put("pfgsWTh", lambda: [spec(h.pfgs(Eth=t / 1000., minTime=w2[0], maxTime=w2[1]), gg) for t in th])
    put("FFpost", lambda: micro(h.FFangles())); put("FFpost2", lambda: micro(h.FFangles(afterEmission=True))); put("FFpre", lambda: micro(h.FFangles(afterEmission=False)))
    three = lambda t: [sorted(micro(x)) for x in t]
    put("nang", lambda: three(h.nangles())); put("nangTh", lambda: [three(h.nangles(Eth=t / 1000.)) for t in th])
    put("nangCm", lambda: three(h.nangles(lab=False))); put("nangNoPre", lambda: three(h.nangles(includePrefission=False)))
    put("nangThCm", lambda: [three(h.nangles(Eth=t / 1000., lab=False)) for t in th])
    put("nF", lambda: three(h.nFangles())); put("nFTh", lambda: [three(h.nFangles(Eth=t / 1000.)) for t in th])
    put("nFPre", lambda: three(h.nFangles(afterEmission=False))); put("nFNo", lambda: three(h.nFangles(includePrefission=False)))
    put("nnLab", lambda: three(h.nnangles(lab=True))); put("nnCm", lambda: three(h.nnangles(cm=True))); put("nnDef", lambda: three(h.nnangles()))
    put("gammaSpec", lambda: [lst(h.gammaSpec(e / 1000., d / 1000.), 1) for e, d in a["gates"]])
    put("gammaSpecPre", lambda: [lst(h.gammaSpec(e / 1000., d / 1000., post=False), 1) for e, d in a["gates"]])
    put("gammaSpec2", lambda: lst(h.gammaSpec([e / 1000. for e, d in a["gates"]], [d / 1000. for e, d in a["gates"]]), 1))
    def gm(**k):
        c, n = h.gammaMultiplicity(minTime=float(a["gmwin"][0]), maxTime=float(a["gmwin"][1]), **k)
        return lst(n, 1)
    if a["gm"]:
        put("gMult", lambda: gm()); put("gMultTh", lambda: [gm(Eth=t / 1000.) for t in th])
        put("gMultDef", lambda: lst(h.gammaMultiplicity()[1], 1))
        put("gMultAZ", lambda: gm(Afragment=a["az"][0], Zfragment=a["az"][1]))
    put("iso", lambda: [[sc(h.isomericRatio(t, a["az"][0], a["az"][1], 5, 2), 1e6), sc(h.isomericRatio(t, a["az"][0], a["az"][1], 2, 5), 1e6)] for t in W])
    def table():
        out = []
        for row in list(h.summaryTable())[1:]:
            out.append([sc(c, 1e6) for c in row[1:]])
        return out
    put("table", table)
    return o


def yld(y):
    o = {}
    G = dict(nfrag=lambda: [ex(y.getNumberFragments(), 1)], nev=lambda: [ex(y.getNumberEvents(), 1)], A=lambda: lst(y.getA(), 1), Z=lambda: lst(y.getZ(), 1),
             N=lambda: lst(y.getN(), 1), U=lambda: [gtok(x) for x in y.getU()], J=lambda: lst(y.getJ(), 2), P=lambda: lst(y.getP(), 1), KE=lambda: [gtok(x) for x in y.getKE()],
             TXE=lambda: [sc(x, 1e6) for x in y.getTXE()], TKE=lambda: [sc(x, 1e6) for x in y.getTKE()],
             mom=lambda: [[gtok(x) for x in v] for v in y.getFragmentMomentum()],
             ALF=lambda: lst(y.getALF(), 1), ZLF=lambda: lst(y.getZLF(), 1), ULF=lambda: [gtok(x) for x in y.getULF()], JLF=lambda: lst(y.getJLF(), 2),
             PLF=lambda: lst(y.getPLF(), 1), KELF=lambda: [gtok(x) for x in y.getKELF()],
             AHF=lambda: lst(y.getAHF(), 1), ZHF=lambda: lst(y.getZHF(), 1), UHF=lambda: [gtok(x) for x in y.getUHF()], JHF=lambda: lst(y.getJHF(), 2),
             PHF=lambda: lst(y.getPHF(), 1), KEHF=lambda: [gtok(x) for x in y.getKEHF()],
             rows=lambda: [[gtok(x) for x in r] for r in y.getFissionYields()],
             table=lambda: [[sc(c, 1e6) for c in row[1:]] for row in list(y.summaryTable())[1:]])
    for k, fn in G.items(): o[k] = guard(fn)
    return o


jobs = json.load(open(sys.argv[2]))
res = []
for j in jobs:
    kind = j.get("kind", "read")
    box = {}
    def load():
        kw = {} if not j.get("first") else dict(nevents=j["first"])
        box["h"] = (Y.Yields if kind == "yields" else H.Histories)(j["file"], **kw)
        return []
    g = guard(load)
    if not g["ok"]: res.append(dict(error=g["why"])); continue
    h = box["h"]
    if kind == "read": res.append({k: guard(lambda fn=fn: fn(h)) for k, fn in READ.items()})
    elif kind == "yields": res.append(yld(h))
    else:
        first = {k: guard(lambda fn=fn: fn(h)) for k, fn in READ.items()}
        o = observe(h, j["ask"])
        again = observe(h, j["ask"])
        last = {k: guard(lambda fn=fn: fn(h)) for k, fn in READ.items()}
        moved = [k for k in o if o[k] != again[k]] + [k for k in first if first[k] != last[k]]
        o["stable"] = dict(ok=not moved, v=[], why="asked again, different: " + ", ".join(moved))
        res.append(o)
json.dump(res, open(sys.argv[3], "w"))
