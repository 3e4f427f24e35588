"""Runs of cgmf.x: command lines, files, summaries."""
import math, os, random, re, subprocess
import vlib, events, levels


def token(s):
    if re.fullmatch(r"[-+]?\d+", s): return [0, int(s)]
    m = re.fullmatch(r"([-+]?)(\d+)\.(\d+)", s)
    if m and len(m.group(3)) <= 3:
        v = int(m.group(2) + m.group(3))
        return [len(m.group(3)), -v if m.group(1) == "-" else v]
    return gtok(s)


def gtok(s):
    """%g: mantissa with 6 digits, exponent"""
    try: x = float(s)
    except ValueError: return [-9, 0]
    if x == 0: return [0, 0]
    if x != x or math.isinf(x): return [-9, 1]
    m, e = ("%.5e" % abs(x)).split("e")
    v = int(m.replace(".", ""))
    return [-1, -v if x < 0 else v, int(e)]


def agetok(s):
    """a token in an age position"""
    return gtok(s)


def readlines(path):
    """(header token list or None, list of raw token lists)"""
    head, out = None, []
    for i, l in enumerate(open(path, errors="replace").read().split("\n")):
        if l.startswith("#"):
            if i == 0: head = l.split()
            else: out.append(["#"])
            continue
        if l.strip() == "":
            continue
        out.append(l.split())
    return head, out


def V(x):
    return events.I(x, 1e5)


def evrec(r):
    """an event of the library in the vocabulary of HistoryFile.tla"""
    def fr(F, no, go):
        nn = range(no, no + F["nu"]); gg = range(go, go + F["ng"])
        return dict(A=F["A"], Z=F["Z"], U=V(F["U"]), J=int(round(2 * F["J"])), P=F["P"], KE=V(F["KE"]), KEp=V(F["KEp"]),
                    p=[V(x) for x in F["pre"]], q=[V(x) for x in F["post"]],
                    c=[[V(r[k][i]) for k in ("cu", "cv", "cw", "cE")] for i in nn],
                    n=[[V(r[k][i]) for k in ("nu", "nv", "nw", "nE")] for i in nn],
                    g=[[V(r[k][i]) for k in ("gu", "gv", "gw", "gE")] + [events.tm(r["gT"][i])] for i in gg])
    return dict(L=fr(r["LF"], 0, 0), H=fr(r["HF"], r["LF"]["nu"], r["LF"]["ng"]),
                pre=[[V(r[k][i]) for k in ("pu", "pv", "pw", "pE")] for i in range(r["npre"])])


def age_lines(lines, evs, ages):
    """tokens of the file; in photon lines with ages every fifth token is read as %g. Which lines are photon
    lines is not known to the reader before the model places them, so a line of 5k tokens whose model line is a
    photon line is recognised by position counting along the expected structure."""
    out = []
    it = 0
    kinds = []
    for e in evs:
        for F in (e["L"], e["H"]):
            kinds += ["frag", "mom"] + (["cm"] if F["c"] else []) + (["lab"] if F["n"] else []) + (["gam"] if F["g"] else [])
        if e["pre"]: kinds.append("pre")
    for i, l in enumerate(lines):
        k = kinds[i] if i < len(kinds) else "x"
        if k == "gam" and ages:
            out.append([gtok(t) if j % 5 == 4 else token(t) for j, t in enumerate(l)])
        else:
            out.append([token(t) for t in l])
    return out


def run(b, d, args, env=None, timeout=300, exe=None, raw_levels=None, cwd=None):
    os.makedirs(d, exist_ok=True)
    if raw_levels is not None:
        with open(d + "/discreteLevels.dat", "w") as f: f.write(raw_levels)
    try:
        p = subprocess.run([exe or b["cli"]] + [str(a) for a in args], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or vlib.ENV, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def library(b, d, za, E, W, seeds, raw_levels):
    """the events of the library for the seeds, in one process"""
    seeds = list(seeds)
    if len(seeds) > 150:
        n = 6
        cut = [seeds[k * len(seeds) // n:(k + 1) * len(seeds) // n] for k in range(n)]
        return [x for part in vlib.parallel(lambda q: library(b, "%s.%d" % (d, q[0]), za, E, W, q[1], raw_levels), list(enumerate(cut))) for x in part]
    os.makedirs(d, exist_ok=True)
    with open(d + "/discreteLevels.dat", "w") as f: f.write(raw_levels)
    with open(d + "/s", "w") as f:
        f.write("data %s/data\n" % vlib.REPO + "".join("useed %d\nev 1 %d %s 0 %s\n" % (s, za, E, W) for s in seeds))
    subprocess.run([b["drv"], "s", "o"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=vlib.ENV, timeout=400)
    import json
    out = []
    for l in open(d + "/o"):
        try: r = json.loads(l)
        except ValueError: break
        if r["op"] == "ev": out.append(r)
    return out
