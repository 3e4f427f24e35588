#!/usr/bin/env python3
import os, sys, json, random, shutil, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels

CFG = """SPECIFICATION Spec
INVARIANT Order
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Options = {"", "A", "A/", "B", "B/", "none"}
 Envs = {"unset", "", "A", "A/", "B", "B/", "none"}
 Kinds <- AllKinds
"""


def mark(path, k):
    """another average TKE: makes the events of the directory recognisable"""
    out = []
    for l in open(path + "/tkemodel.dat"):
        t = l.split()
        if len(t) == 27 and not l.startswith("#"):
            t[1] = "%.2f" % (float(t[1]) + k)
            l = " ".join(t) + "\n"
        out.append(l)
    open(path + "/tkemodel.dat", "w").write("".join(out))


def body(c):
    T = c.thorough
    root = vlib.sub("dp")
    prefix = root + "/prefix"
    b = vlib.build(extra=["-DCMAKE_INSTALL_PREFIX=" + prefix, "-DCMAKE_INSTALL_DATADIR=share"])
    r = vlib.tlc("DataPath", cfg="dp", files={"dp.cfg": CFG})
    c.add_tlc(r)
    if not r.clean: c.violate("the model is wrong", r.out[-3000:]); return
    plans = [json.loads(json.loads(l)) for l in r.out.splitlines() if l.startswith('"{')]
    plans.sort(key=lambda q: json.dumps(q, sort_keys=True))
    rnd = random.Random(vlib.SEED + 20)
    # where the installed data would be: the install rules say so
    inst = None
    for root_, _, fs in os.walk(b["dir"]):
        if "cgmf_config.h" in fs:
            for l in open(root_ + "/cgmf_config.h"):
                if "INSTALL_DATADIR" in l: inst = l.split('"')[1]
    if not inst or not inst.startswith(prefix): print("no installed data directory configured: %s" % inst); sys.exit(2)
    mass = events.masses()
    lv = {d: levels.text(levels.gen(vlib.SEED * 11 + k, mass, "prompt")) for k, d in enumerate(["A", "B", "I", "cwd"])}
    base = {}
    for k, d in enumerate(["A", "B", "I"]):
        base[d] = "%s/%s" % (root, d)
        shutil.copytree(vlib.REPO + "/data", base[d])
        mark(base[d], 1.5 * (k + 1))
        open(base[d] + "/discreteLevels.dat", "w").write(lv[d])
    base["S"] = vlib.REPO + "/data"
    req = {True: (98252, "0"), False: (94239, "14")}
    env0 = {k: v for k, v in vlib.ENV.items() if k != "CGMFDATA"}
    # what each directory gives: the library, told the directory
    ref = {}

    def reference(q):
        d, sf, ev, lev = q
        w = vlib.sub("ref-%s-%d%d-%s" % q)
        if lev == "cwd": open(w + "/discreteLevels.dat", "w").write(lv["cwd"])
        za, E = req[sf]
        with open(w + "/s", "w") as f:
            f.write("data %s\n" % base[d] + ("".join("useed %d\nev 1 %d %s 0 -1\n" % (s, za, E) for s in (5, 6, 7)) if ev else "useed 5\nyld %d %s 4 y\n" % (za, E)))
        subprocess.run([b["drv"], "s", "o"], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env0, timeout=200)
        if not ev: return open(w + "/y").read() if os.path.exists(w + "/y") else None
        rec = [json.loads(l) for l in open(w + "/o") if l.endswith("}\n")]
        rec = [x for x in rec if x["op"] == "ev"]
        return [["%.3f" % F["U"] for x in rec for F in (x["LF"], x["HF"])], ["%.3f" % g for x in rec for g in x["gE"]]] if len(rec) == 3 else None
    keys = [(d, sf, ev, lev) for d in "ABIS" for sf in (True, False) for ev in (True, False) for lev in ("dir", "cwd") if not (d == "S" and lev == "dir")]
    for k, v in zip(keys, vlib.parallel(reference, keys)): ref[k] = v
    for sf in (True, False):
        for ev in (True, False):
            vals = [json.dumps(ref[(d, sf, ev, "cwd")]) for d in "ABIS"]
            if "null" in vals or len(set(vals)) < 4:
                c.violate("the library does not take its data from the directory it was told (setdatapath): runs of %s in four different data directories give %d results" % (req[sf], len(set(vals))))
    # the plans, with and without an installed directory
    complete = [q for q in plans if q["run"]["missing"] == ""]
    lost = [q for q in plans if q["run"]["missing"] != ""]
    if not T:
        keepc = [q for q in complete if rnd.random() < .32]
        pick = {}
        for q in lost: pick.setdefault((q["run"]["missing"], tuple(q["run"]["kind"])), []).append(q)
        lost = [x for v in pick.values() for x in rnd.sample(v, min(3, len(v)))]
        complete = keepc

    def parse(path, ev):
        t = open(path).read() if os.path.exists(path) else ""
        body_ = [l for l in t.splitlines() if not l.startswith("#")]
        if not ev or not body_: return t if body_ else None
        U, g, i = [], [], 0
        while i < len(body_):
            l = body_[i].split()
            U.append(l[2]); nu, ng, npre = int(l[7]), int(l[8]), int(l[9])
            i += 2 + (2 if nu else 0)
            if ng: g += body_[i].split()[3::5]; i += 1
            if npre: i += 1
        return [U, g]

    def do(q):
        n, q = q
        R = q["run"]
        sf, ev = R["kind"]
        w = vlib.sub("run%d" % n)
        where = dict(base)
        own = None
        if R["missing"]:
            # a copy of the directory that is used, without the file; the other directories keep theirs
            if q["dir"] == "I": own = inst          # handled by the caller: installed copy already lacks it
            else:
                own = w + "/data-" + q["dir"]
                shutil.copytree(base[q["dir"]], own)
                os.remove(own + "/" + R["missing"])
                where[q["dir"]] = own
        path = lambda x: w + "/does-not-exist" if x == "none" else where[x.rstrip("/")] + ("/" if x.endswith("/") else "")
        cwd = w + "/cwd"
        os.makedirs(cwd)
        if R["lev"] == "cwd": open(cwd + "/discreteLevels.dat", "w").write(lv["cwd"])
        env = dict(env0)
        if R["e"] != "unset": env["CGMFDATA"] = path(R["e"]) if R["e"] else ""
        za, E = req[sf]
        a = ["-i", za, "-e", E, "-n", 3 if ev else -4, "-s", 5, "-t", -1, "-f", "h"]
        if R["o"]: a = a + ["-d", path(R["o"])] if n % 2 else ["-d", path(R["o"])] + a
        try:
            p = subprocess.run([b["cli"]] + [str(x) for x in a], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            rc, err = p.returncode, p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        got = parse(cwd + "/h.0", ev)
        shutil.rmtree(w, ignore_errors=True)
        if q["st"] == "done":
            want = ref[(q["dir"], sf, ev, R["lev"])]
            if rc == 0 and got == want: return None
            other = [d for d in "ABIS" if ref.get((d, sf, ev, R["lev"])) == got and got is not None]
            return "expected a run on the data of %s, got status %s%s" % (q["dir"], rc, ", and events of " + str(other) if other else ", and other events" if got else ", no events")
        if isinstance(rc, int) and rc > 0 and got is None and err.strip(): return None
        return "expected a failure, got status %s%s, stderr %r" % (rc, ", events produced" if got else "", err[-100:])
    work = list(enumerate(complete + lost))
    bad = []
    for phase in (False, True):
        os.makedirs(os.path.dirname(inst), exist_ok=True)
        if phase: shutil.copytree(base["I"], inst)
        sel = [x for x in work if x[1]["run"]["inst"] == phase and not (x[1]["run"]["missing"] and x[1]["dir"] == "I")]
        bad += [(x[1], y) for x, y in zip(sel, vlib.parallel(do, sel)) if y]
    # installed directory without a file: one after the other per file
    mine = {}
    for x in work:
        if x[1]["run"]["missing"] and x[1]["dir"] == "I": mine.setdefault(x[1]["run"]["missing"], []).append(x)
    for f, xs in sorted(mine.items()):
        os.rename(inst + "/" + f, root + "/aside")
        bad += [(x[1], y) for x, y in zip(xs, vlib.parallel(do, xs)) if y]
        os.rename(root + "/aside", inst + "/" + f)
    for q, y in bad: c.violate("%s: %s" % (json.dumps(q["run"], sort_keys=True), y))
    c.traces(len(work))
    c.count("complete_configurations", len(complete)); c.count("configurations_with_a_missing_file", len(lost))
    for q in rnd.sample(complete, 2) + rnd.sample(lost, 2): c.sample(q)
    c.assumptions = ["the installed directory is that of a build configured with a scratch prefix", "directories are told apart by the average total kinetic energies in tkemodel.dat and by their level files"]


vlib.run_check("C20", body)
