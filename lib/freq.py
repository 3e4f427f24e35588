"""Counts of random choices in many events of the real library, for TraceFreq.tla."""
import math, random
import vlib, events, levels

AMU = events.AMU


# ------------------------------------------------------------------ level schemes
def scheme(rnd, odd, isomers):
    """one level scheme whose transitions all have different energies; the same for every nucleus"""
    while True:
        n = 8
        E, e = [0], 0
        for i in range(1, n):
            e += rnd.randint(90000, 300000)
            E.append(e)
        d = sorted(E[k] - E[j] for k in range(n) for j in range(k))
        if all(y - x > 1500 for x, y in zip(d, d[1:])):
            break
    spins = [rnd.randint(0, 2), rnd.randint(0, 3), rnd.randint(1, 4), rnd.randint(2, 5), rnd.randint(3, 6), rnd.randint(4, 7), rnd.randint(5, 8), rnd.randint(5, 9)]
    levs = [dict(E=E[i], J2=2 * spins[i] + odd, P=rnd.choice([-1, 1]), T=0.0, br=[]) for i in range(n)]
    kinds = ["file"] * 2 + rnd.sample(["file", "none", "zero", "none"], 4)
    kinds = ["-"] + kinds[:1] + kinds[2:6] + ["file", "file"]
    for i in range(1, n):
        if kinds[i] == "none":
            continue
        m = min(i, rnd.choice([2, 3, 3, 4]) if i > 1 else 1)
        fin = rnd.sample(range(i), m)
        if i >= 5:                                       # feed the levels without a decay in the file
            for j in range(1, i):
                if kinds[j] == "none" and j not in fin: fin.append(j)
        rnd.shuffle(fin)
        for f in fin:
            icc = rnd.choice([0, 0, .2, 1.0, 3.0])
            levs[i]["br"].append((f, 0 if kinds[i] == "zero" else rnd.randint(15000, 90000), icc))
    for j, t in isomers(rnd):
        levs[j]["T"] = t
    return levs


def write(even, odd):
    """the level file of all nuclei"""
    raw = {}
    for za in events.masses():
        z, a = divmod(za, 1000)
        if levels.ZMIN - 4 <= z <= levels.ZMAX and 1.9 * z <= a <= 3.0 * z:
            raw[za] = odd if a % 2 else even
    return raw


def photons(r):
    """[(A after neutron emission, [(energy in the frame of the fragment, eV; age)])] of an event"""
    out, go = [], 0
    m = events.masses()
    for F in (r["LF"], r["HF"]):
        a = F["A"] - F["nu"]
        za = 1000 * F["Z"] + a
        if za in m:
            b = math.sqrt(sum(x * x for x in F["post"])) / (a * AMU + m[za])
            g = math.sqrt(max(0.0, 1 - b * b)) or 1.0
            out.append((a, [(r["gE"][i] * (1 - b * r["gu"][i]) / g * 1e6, r["gT"][i]) for i in range(go, min(go + F["ng"], len(r["gE"])))]))
        go += F["ng"]
    return out


class Cascade:
    """arrivals in the levels of one scheme, and the photon that follows"""

    def __init__(self, levs, window):
        n = len(levs)
        self.levs, self.window = levs, window
        self.tr = sorted((levs[k]["E"] - levs[j]["E"], k, j) for k in range(n) for j in range(k))
        self.n = [0] * n
        self.c = [[0] * n for _ in range(n)]
        self.wait = [[] for _ in range(n)]

    def which(self, e):
        for d, k, j in self.tr:
            if abs(d - e) < 60 + e * 2e-5: return k, j
        return None

    def add(self, ph):
        for x, (e, t) in enumerate(ph):
            w = self.which(e)
            if w is None or w[1] == 0: continue
            if self.window > 0 and t > 0: continue
            j = w[1]
            self.n[j] += 1
            if x + 1 < len(ph):
                v = self.which(ph[x + 1][0])
                if v and v[0] == j:
                    self.c[j][v[1]] += 1
                    if self.levs[j]["T"] > 0: self.wait[j].append((ph[x + 1][1] - t) / self.levs[j]["T"])

    def observations(self):
        out = []
        s = [dict(E=l["E"], J2=l["J2"], P=l["P"], br=[[f, w, int(round(1000 * c))] for f, w, c in l["br"]]) for l in self.levs]
        Q = [1, 2, 4, 8, 12, 16]
        for j in range(1, len(self.levs)):
            if self.n[j] < 20: continue
            T = self.levs[j]["T"]
            o = dict(s=s, lev=j + 1, n=self.n[j], c=self.c[j])
            if self.window > 0 and T > 0:
                q = self.window / T * 4
                if q not in (1, 2, 4, 8, 12, 16, 24): continue
                out.append(dict(o, k="held", q=int(q)))
            else:
                out.append(dict(o, k="decay"))
            if T > 0 and self.window <= 0 and len(self.wait[j]) >= 20:
                out.append(dict(k="wait", n=len(self.wait[j]), q=Q, c=[sum(1 for w in self.wait[j] if w < q / 4.0) for q in Q], lev=j + 1))
        return out


# ------------------------------------------------------------------ directions
def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v] if n > 0 else None


def dot(a, b):
    return max(-1.0, min(1.0, sum(x * y for x, y in zip(a, b))))


class Bins:
    """named histograms of quantities that are uniform over their range"""

    def __init__(self):
        self.h = {}

    def put(self, name, x, lo, hi, m=8):
        h = self.h.setdefault(name, [0] * m)
        h[min(m - 1, max(0, int((x - lo) / (hi - lo) * m)))] += 1

    def cosine(self, name, x, m=8): self.put(name, x, -1.0, 1.0, m)

    def azimuth(self, name, v): self.put(name, math.atan2(v[1], v[0]), -math.pi, math.pi)

    def merge(self, o):
        for k, h in o.h.items():
            g = self.h.setdefault(k, [0] * len(h))
            for i, x in enumerate(h): g[i] += x


def directions(r, B, sf):
    """directions of one event"""
    first, no, go = [], 0, 0
    for f, F in (("light", r["LF"]), ("heavy", r["HF"])):
        fd = unit(F["pre"])
        if sf:
            B.cosine("sf fragment %s cos" % f, fd[2]); B.azimuth("sf fragment %s azimuth" % f, fd)
        B.put("parity %s" % f, F["P"], -1, 1.001, 2)
        prev = None
        for i in range(F["nu"]):
            c = [r["cu"][no + i], r["cv"][no + i], r["cw"][no + i]]
            tag = "neutron %s %s" % (f, ("first", "second", "later")[min(i, 2)])
            B.cosine(tag + " z", c[2]); B.cosine(tag + " x", c[0]); B.azimuth(tag + " azimuth", c)
            B.cosine(tag + " to fragment", dot(c, fd))
            e = r["cE"][no + i]
            en = "slow" if e < .7 else "medium" if e < 2 else "fast"
            B.cosine("neutron %s z" % en, c[2]); B.cosine("neutron %s to fragment" % en, dot(c, fd))
            band = "neutron of A %d-%d" % ((F["A"] - i) // 8 * 8, (F["A"] - i) // 8 * 8 + 7)
            B.cosine(band + " z", c[2], 4); B.cosine(band + " to fragment", dot(c, fd), 4)
            if F["A"] > 150 or F["A"] < 92: B.cosine("neutron of an extreme mass to fragment", dot(c, fd))
            if prev: B.cosine("neutron %s to previous" % f, dot(c, prev))
            else: first.append(c)
            prev = c
        no += F["nu"]
        pg = None
        for i in range(F["ng"]):
            g = [r["gu"][go + i], r["gv"][go + i], r["gw"][go + i]]
            tag = "photon %s %s" % (f, ("first", "second", "third", "later")[min(i, 3)])
            B.cosine(tag + " x", g[0]); B.cosine(tag + " z", g[2]); B.azimuth(tag + " azimuth", g)
            B.cosine("photon %s to fragment" % f, dot(g, fd))
            B.cosine("photon of A %d-%d x" % (F["A"] // 8 * 8, F["A"] // 8 * 8 + 7), g[0], 4)
            e = r["gE"][go + i]
            B.cosine("photon %s x" % ("soft" if e < .4 else "medium" if e < 2 else "hard"), g[0])
            B.azimuth("photon %s turned" % f, [g[1], g[2]])
            if pg: B.cosine("photon %s to previous" % f, dot(g, pg))
            elif prev: B.cosine("photon to neutron", dot(g, prev))
            pg = g
        go += F["ng"]
    if len(first) == 2: B.cosine("neutron to neutron of the other fragment", dot(*first))
    for i in range(r["npre"]):
        B.azimuth("prefission neutron azimuth", [r["pu"][i], r["pv"][i]])


def pairs(path):
    """fragment pairs of a yields file: directions of the light fragment where the fissioning system is at rest, parities"""
    m = events.masses()
    L = [l.split() for l in open(path)]
    for a, h in zip(L[0::2], L[1::2]):
        pl, ph = [float(x) for x in a[6:9]], [float(x) for x in h[6:9]]
        ml, mh = [int(t[1]) * AMU + m.get(1000 * int(t[0]) + int(t[1]), 0) for t in (a, h)]
        yield unit([x - ml / (ml + mh) * (x + y) for x, y in zip(pl, ph)]), int(float(a[5])), int(float(h[5]))


def anisotropies():
    """targets' tabulated coefficients (1e-3)"""
    rows, first = {}, True
    for l in open(vlib.REPO + "/data/anisotropy.dat"):
        t = l.split()
        if not t or t[0].startswith("#"): continue
        if first: first = False; continue
        rows[int(float(t[0]))] = [int(round(float(x) * 1000)) for x in t[1:]]
    return rows


# ------------------------------------------------------------------ multi-chance fission
def chances():
    """{target: (barriers in keV, [(E keV, [weights in 1e-3 percent])])} of multichancefission.dat"""
    out, cur, L = {}, None, [l.split() for l in open(vlib.REPO + "/data/multichancefission.dat") if l.strip() and not l.startswith("#")]
    i = 0
    while i < len(L):
        za, ne, nn = int(L[i][0]), int(L[i][1]), int(L[i][2])
        out[za] = [int(round(float(x) * 1000)) for x in L[i + 1][:nn + 1]], [(int(round(float(t[0]) * 1000)), [int(round(float(x) * 1000)) for x in t[1:nn + 2]]) for t in L[i + 2:i + 2 + ne]]
        i += 2 + ne
    return out
