"""History and yields files for CGMFtk: generated by TLC from GenFiles.tla, or written by cgmf.x."""
import json, os, random, re, subprocess
import vlib, cli, events, levels

PROBE = vlib.VERIF + "/lib/tkprobe.py"
CFG = """SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxEvents = %d
 Ac = %d
 Zc = %d
 Ages = %s
 Same = %s
"""


def show(t):
    """a token as printed text"""
    if t[0] == -1: return "%g" % (t[1] / 1e5 * 10.0 ** t[2])
    if t[0] == 0: return "%d" % t[1]
    return "%.*f" % (t[0], t[1] / 10.0 ** t[0])


def generate(seed, num, events_, Ac, Zc, sf, ages, same, depth=None):
    """files as the model writes them: [{lines, ages, zaid, E, window}]"""
    r = vlib.tlc("GenFiles", cfg="gen", files={"gen.cfg": CFG % (events_, Ac, Zc, str(ages).upper(), str(same).upper())},
                 extra=["-simulate", "num=%d" % num, "-depth", str(2 * events_ + 3), "-seed", str(seed)], name="gen%d" % seed, timeout=300)
    out, seen = [], set()
    for l in r.out.split("\n"):
        if l.startswith('"[['):
            l = json.loads(l)
            if l in seen: continue
            seen.add(l)
            out.append(dict(lines=json.loads(l), ages=ages, zaid=1000 * Zc + Ac - (0 if sf else 1), E="0" if sf else "1.5", window="-1" if ages else ["1e-08", "0", "2.5e-07"][len(out) % 3], sf=sf))
    return out


def many(seed, num, T=False):
    """a mix of settings"""
    sets = [(6, 252, 98, True, True, False), (6, 240, 94, False, True, False), (5, 236, 92, False, False, False), (4, 240, 94, False, True, True),
            (4, 252, 98, True, False, True), (1, 239, 92, False, True, False), (2, 240, 94, False, False, False), (9, 238, 93, False, True, False)]
    got = vlib.parallel(lambda k: generate(seed * 100 + k, num, *sets[k]), range(len(sets)))
    return [f for g in got for f in g[:num]]


def write(f, path, rnd):
    sep = rnd.choice([" ", "  "])
    with open(path, "w") as h:
        h.write("# %5d %s %s\n" % (f["zaid"], f["E"], f["window"]))
        for l in f["lines"]:
            h.write(sep.join(show(t) for t in l) + "\n")
    f["path"] = path


def parse(path):
    """tokens of a history file written by cgmf.x (ages are %g)"""
    head, lines = cli.readlines(path)
    ages = float(head[3]) < 0
    out, i, heavy = [], 0, False
    while i < len(lines):
        l = lines[i]
        nu, ng, npre = int(l[7]), int(l[8]), int(l[9])
        k = 2 + (2 if nu else 0)
        out += [[cli.token(t) for t in x] for x in lines[i:i + k]]
        i += k
        if ng:
            out.append([cli.gtok(t) if ages and j % 5 == 4 else cli.token(t) for j, t in enumerate(lines[i])])
            i += 1
        if heavy and npre:
            out.append([cli.token(t) for t in lines[i]]); i += 1
        heavy = not heavy
    return dict(lines=out, ages=ages, zaid=int(head[1]), E=head[2], window=head[3], path=path)


def real(b, seed, n, nev):
    """files of cgmf.x"""
    rnd = random.Random(seed)
    alls = [(z, True) for z in events.SF] + [(z, False) for z in events.NI]

    def one(i):
        za, sf = alls[(i * 5 + seed) % len(alls)]
        r = random.Random(seed * 1000 + i)
        E = "0" if sf else "%.2f" % r.choice([.5, 5, 14, 18, 20])
        d = vlib.sub("real%d" % i)
        lv = levels.text(levels.gen(seed * 3 + i, events.masses(), ["rich", "bare"][i % 2]))
        rc, out, err = cli.run(b, d, ["-i", za, "-e", E, "-n", nev, "-s", r.randint(1, 10**6), "-t", ["-1", "1e-8"][i % 3 == 2], "-f", "h"], raw_levels=lv)
        return parse(d + "/h.0") if rc == 0 and os.path.exists(d + "/h.0") else None
    return [f for f in vlib.parallel(one, range(n)) if f]


def probe(jobs, tag="p"):
    """CGMFtk's answers"""
    groups = [jobs[i::vlib.NPROC] for i in range(vlib.NPROC)]

    def one(k):
        if not groups[k]: return []
        d = vlib.sub("%s%d" % (tag, k))
        json.dump(groups[k], open(d + "/jobs.json", "w"))
        p = vlib.sh([vlib.PY, PROBE, vlib.REPO + "/tools", "jobs.json", "out.json"], cwd=d, env=dict(vlib.ENV, PYTHONDONTWRITEBYTECODE="1"), timeout=800)
        if p.returncode or not os.path.exists(d + "/out.json"):
            return [dict(error="CGMFtk could not be used: " + p.stdout.decode(errors="replace")[-600:])] * len(groups[k])
        return json.load(open(d + "/out.json"))
    res = vlib.parallel(one, range(vlib.NPROC))
    out = [None] * len(jobs)
    for k, g in enumerate(res):
        for j, x in enumerate(g): out[k + j * vlib.NPROC] = x
    return out


def judge(module, data, tag):
    """[(tlc result, [(index, names)])]"""
    groups = [list(range(len(data)))[i::vlib.NPROC] for i in range(vlib.NPROC)]

    def one(g):
        if not g: return None
        for attempt in range(2):
            r = vlib.tlc(module, files={"data.json": [data[i] for i in g]}, name="%s%d" % (tag, g[0]), heap="3g", timeout=800)
            m = re.search(r'^"(\{\\"rejected\\".*)"$', r.out, re.M)
            if m: break
        if not m: return r, [(None, r.out[max(0, r.out.find("Error:")):][:2500])]
        if os.environ.get("VDEBUG"): print(m.group(1)[-300:])
        rej = json.loads(json.loads('"%s"' % m.group(1)))["rejected"]
        if isinstance(rej, dict): rej = [rej[k] for k in sorted(rej, key=int)]
        return r, [(g[k], sorted(x)) for k, x in enumerate(rej) if x]
    return [x for x in vlib.parallel(one, groups) if x]
