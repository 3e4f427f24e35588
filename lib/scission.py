"""Fragment pairs of yields runs of the real library, for TraceScission.tla."""
import json, os, random, re
import vlib, events

HALF = 8071


def table(name):
    """{nuclide: 32 values (1e-4)}"""
    out = {}
    for l in open(vlib.REPO + "/data/" + name):
        t = l.split()
        if not l.startswith("#") and len(t) == 33: out[int(t[0])] = [int(round(float(x) * 1e4)) for x in t[1:]]
    return out


def rows(name, n, sub=False):
    """{ZAID: n numbers}"""
    out = {}
    for l in open(vlib.REPO + "/data/" + name):
        t = l.split("#")[0].split()
        if len(t) >= n + 1 and re.match(r"-?\d+$", t[0]): out[int(t[0])] = [float(x) for x in t[1:n + 1]]
    return out


def deformations():
    out = {}
    for l in open(vlib.REPO + "/data/deformations.dat"):
        if l.startswith("#"): continue
        if l[44:52].strip() and l[50:51] != " ": out[1000 * int(l[:4]) + int(l[4:8])] = int(round(float(l[44:52]) * 1000))
    return out


def ratios():
    """{target: (first heavy mass, temperature ratios in 1e-3)}"""
    out = {}
    for l in open(vlib.REPO + "/data/rta.dat"):
        t = l.split()
        if t and not l.startswith("#"): out[abs(int(t[0]))] = (int(t[1]), [int(round(float(x) * 1000)) for x in t[3:int(t[2]) - int(t[1]) + 4]])
    return out


FIXED = (92234, 94238, 94244)           # targets without a table: the ratio is 1.2


class Data:
    def __init__(self):
        self.m = events.masses()
        self.ldp, self.temp, self.beta, self.rta = table("ldp.dat"), table("temperatures.dat"), deformations(), ratios()
        self.ya = {k: [int(round(x * 1e4)) for x in v] for k, v in rows("yamodel.dat", 14).items()}
        self.tk = {}
        for k, v in rows("tkemodel.dat", 26).items():
            c = lambda q: [int(round(x * 50.0 ** j * 1e4)) for j, x in enumerate(q)]
            self.tk[k] = [int(round(v[0] * 1000)), int(round(v[1] * 1000)), int(round(v[2] * 1e4)), int(round(v[3] * 1e4)), int(round(v[4] * 100)), int(v[5])] + c(v[6:15]) + [int(round(v[15] * 100)), int(v[16])] + c(v[17:26])
        self.al = {k: [int(round(v[0] * 1e5)), int(round(v[1] * 1e5))] for k, v in rows("spinscalingmodel.dat", 2).items()}

    def run(self, za, E, pairs, laws, rnd):
        """observation of one run; pairs: (zl, al, tke, ul, jl, zh, ah, uh, jh) in MeV; None if a pair is no pair of this nucleus"""
        sf = za in events.SF
        Z, A = divmod(za if sf else za + 1, 1000)
        npre = A - pairs[0][1] - pairs[0][6]
        c = 1000 * Z + A - npre
        sel = lambda t: [dict(id=A - k, p=t[q]) for k in range(1 if sf else 4) for q in [(-1 if sf else 1) * (1000 * Z + A - k)] if q in t]
        nuc, idx, ps = [], {}, []
        for zl, al, tke, ul, jl, zh, ah, uh, jh in pairs:
            ks = []
            for q in (1000 * zl + al, 1000 * zh + ah):
                if q not in idx:
                    idx[q] = len(nuc) + 1
                    nuc.append(dict(ldp=self.ldp.get(q, []) if "share" in laws else [], temp=self.temp.get(q, []) if "spin" in laws else [], beta=self.beta.get(q, 200)))
                ks.append(idx[q])
            if al + ah != A - npre or 1000 * zl + al not in self.m or 1000 * zh + ah not in self.m: return None
            ps.append([zl, al, int(round(tke * 1e4)), int(round(ul * 1000)), int(round(2 * jl)), zh, ah, int(round(uh * 1000)), int(round(2 * jh)), ks[0], ks[1],
                       int(round(self.m[1000 * zl + al] * 1000)), int(round(self.m[1000 * zh + ah] * 1000))] + [rnd.randrange(1000000) for _ in range(4)])
        lo, v = self.rta.get(za, (0, []))
        me = [int(round(self.m[c] * 1000)), int(round(self.m[c - 1] * 1000))]
        sn0 = 0 if sf else self.m[1000 * Z + A - 1] - self.m[1000 * Z + A] + 8.07132
        return dict(Z=Z, A=A, npre=npre, E=int(round(E * 1000)), sf=sf, me=me, PE=int(round((E + sn0) * 1000)), ya=sel(self.ya), tk=sel(self.tk), al=sel(self.al),
                    R=dict(lo=lo, v=v, other=1200 if za in FIXED else 1000), nuc=nuc, laws=laws, pairs=ps)


def read(path):
    L = [l.split() for l in open(path)]
    return [(int(a[0]), int(a[1]), float(a[2]) + float(h[2]), float(a[3]), float(a[4]), int(h[0]), int(h[1]), float(h[3]), float(h[4])) for a, h in zip(L[0::2], L[1::2])]


def jobs(T, salt, n, nsf):
    """[(target, energy, pairs, seed)]: every target, energies over the whole range, several seeds where neutrons may leave first"""
    rnd = random.Random(vlib.SEED * 131 + salt)
    out = [(za, 0.0, nsf) for za in events.SF for _ in range(4 if T else 1)]
    for za in events.NI:
        Es = [2.53e-8, round(rnd.uniform(.6, .99), 3), round(rnd.uniform(.6, .99), 3), round(rnd.uniform(1, 3), 3), round(rnd.uniform(3, 6), 3), round(rnd.uniform(6, 9), 3)]
        Es += [round(rnd.uniform(9, 14), 3) for _ in range(2)] + [round(rnd.uniform(14, 20), 3) for _ in range(3)] + [20.0]
        for E in Es * (4 if T else 1): out.append((za, E, n))
    return [(za, E, k, rnd.randint(1, 10 ** 8)) for za, E, k in out]


def judge(c, b, laws, js):
    """runs the library and TLC; [(za, E, npre, seed, result)]"""
    D = Data()

    def one(k):
        za, E, n, seed = js[k]
        rc, recs, log = events.drive(b, "y%d" % k, "data %s/data\nseed %d\nyld %d %r %d pairs\n" % (vlib.REPO, seed, za, E, n), {}, timeout=300)
        p = os.path.join(vlib.scratch(), "drv-y%d" % k, "pairs")
        try:
            ps = read(p) if rc == 0 else []
        except (ValueError, IndexError):
            return k, None, "the pairs cannot be read"
        if os.path.exists(p): os.remove(p)
        if rc or len(ps) < n: return k, None, "the library stopped (rc=%s) after %d of %d pairs: %s" % (rc, len(ps), n, log[-300:])
        try:
            o = D.run(za, E, ps, laws, random.Random(seed))
        except (ValueError, OverflowError):
            return k, None, "values that are not finite"
        return k, o, "pairs that are not two fragments of the same nucleus"
    runs = []
    for k, o, what in vlib.parallel(one, range(len(js))):
        if o is None: c.violate("%d at %r MeV (seed %d): %s" % (js[k][0], js[k][1], js[k][3], what))
        else: runs.append((k, o))
    out = [(js[k][0], js[k][1], o["npre"], js[k][3], r, o) for k, r, o in tlc(c, runs, "sc", lambda k: "%d at %r MeV" % js[k][:2])]
    c.traces(sum(len(o["pairs"]) for _, o in runs))
    return out


def tlc(c, runs, tag, name):
    """runs: [(k, observation)] -> [(k, result, observation)]"""
    groups = [runs[i::vlib.NPROC] for i in range(vlib.NPROC)]

    def tl(g):
        if not g: return None, g, {}
        r = vlib.tlc("TraceScission", files={"data.json": [o for _, o in g]}, name="%s%d" % (tag, g[0][0]), heap="3g", timeout=800)
        return r, g, {x["i"]: x["r"] for x in (json.loads(json.loads(l)) for l in r.out.split("\n") if l.startswith('"{\\"i\\"') or l.startswith('"{\\"r\\"'))}
    out = []
    for r, g, got in vlib.parallel(tl, groups):
        if r is None: continue
        c.add_tlc(r)
        for x, (k, o) in enumerate(g):
            if x + 1 not in got:
                c.violate("TLC could not judge %s: %s" % (name(k), r.out[max(0, r.out.find("Error:")):][:1500])); break
            out.append((k, got[x + 1], o))
    return out
