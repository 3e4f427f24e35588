"""Sessions: operation histories generated by TLC from Session.tla, replayed into the real
library, and the recorded observations validated against Session.tla."""
import hashlib, json, os, random, re, subprocess
import vlib, levels, events


def cfg(slots, nreq, ndec, seeds, paths, depth, kinds, extra=""):
    return ("SPECIFICATION GSpec\nINVARIANT Emit\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Slots = {%s}\n Requests = {%s}\n Decays = {%s}\n"
            " Seeds = {%s}\n Paths = {%s}\n Depth = %d\n Kinds = {%s}\n%s" % (
                ",".join(map(str, range(1, slots + 1))), ",".join(map(str, range(1, nreq + 1))), ",".join(map(str, range(1, ndec + 1))),
                ",".join(map(str, seeds)), ",".join(map(str, range(1, paths + 1))), depth, ",".join('"%s"' % k for k in kinds), extra))


ALL = ["new", "free", "show", "oor", "cnew", "cclean", "cshow", "coor", "yld", "cgm", "cleanup", "data"]


def generate(c, name, text, simulate=None, depth=None):
    """histories of a configuration: all of them, or `simulate` random ones"""
    extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth + 2), "-seed", str(vlib.SEED * 7919 + 13)] if simulate else []
    r = vlib.tlc("GenSession", cfg="gen", files={"gen.cfg": text}, extra=extra, name=name)
    hs = [json.loads(json.loads(l)) if l.startswith('"[') else json.loads(l) for l in r.out.splitlines() if l.startswith('"[[') or l.startswith("[[")]
    if not hs or "Error:" in r.out:
        raise RuntimeError("history generation failed: " + r.out[-2000:])
    if simulate: c.count("states_visited_by_simulation", r.generated)
    else: c.add_tlc(r)
    hs = [h[:-1] for h in hs]
    return hs


def digest(o):
    o = {k: v for k, v in o.items() if k not in ("op", "slot", "line", "za", "E", "zaid", "ex")}
    return int(hashlib.md5(json.dumps(o, sort_keys=True).encode()).hexdigest()[:7], 16)


class Replay:
    """runs histories against the library; reqs/decays/seeds are the concrete values of the model's indices"""

    def __init__(self, b, reqs, decays, seeds, raw, env=None, timeout=300, paths=None):
        self.b, self.reqs, self.decays, self.seeds, self.raw = b, reqs, decays, seeds, raw
        self.env, self.timeout = env, timeout
        self.paths = paths or [vlib.REPO + "/data", vlib.REPO + "/data/", vlib.REPO + "/libcgmf/../data"]
        self.leveltext = levels.text(raw)

    def script(self, hist):
        out = ["data " + self.paths[0]]
        cur = None

        def seed(s, c):
            if s: out.append("%s %d" % ("cseed" if c else "seed", self.seeds[s]))
        for n, op in enumerate(hist):
            k = op[0]
            if k == "new":
                seed(op[3], False); q = self.reqs[op[2] - 1]; out.append("ev %d %d %r %r %r" % (op[1], q["za"], q["E"], q["T"], q["W"]))
            elif k == "cnew":
                seed(op[2], True); q = self.reqs[op[1] - 1]; out.append("cev %d %r %r %r" % (q["za"], q["E"], q["T"], q["W"]))
            elif k == "yld":
                seed(op[2], False); q = self.reqs[op[1] - 1]; out.append("yld %d %r 3 y%d" % (q["za"], q["E"], n))
            elif k == "cgm":
                seed(op[2], False); z, e = self.decays[op[1] - 1]; out.append("cgm %d %r" % (z, e))
            elif k == "data":
                out.append("data " + self.paths[op[1] - 1])
            else:
                out.append(" ".join(map(str, op)))
        return "\n".join(out) + "\n"

    def run(self, name, hist):
        """-> (trace lines, None) or (lines so far, what went wrong)"""
        d = vlib.sub("ses-" + name)
        with open(d + "/discreteLevels.dat", "w") as f: f.write(self.leveltext)
        with open(d + "/script", "w") as f: f.write(self.script(hist))
        with open(d + "/log", "w") as log:
            try:
                rc = subprocess.run([self.b["drv"], "script", "out"], cwd=d, stdout=log, stderr=log, env=self.env or vlib.ENV, timeout=self.timeout).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        recs = []
        if os.path.exists(d + "/out"):
            for l in open(d + "/out"):
                try: recs.append(json.loads(l))
                except ValueError: break
        lines = [["start"]]
        it = iter([r for r in recs if r["op"] != "end"])
        bad = None
        for n, op in enumerate(hist):
            k = op[0]
            if k == "data":
                lines.append(list(op)); continue
            r = next(it, None)
            if r is None:
                bad = "operation %d %s of history %s: process ended with %s: %s" % (n + 1, op, hist, rc, open(d + "/log", errors="replace").read()[-700:])
                break
            if k in ("new", "show"):
                q = self.reqs[self.slotreq(hist, n) - 1]
                lines.append(list(op) + [digest(r), int(r["za"] == q["za"] and r["E"] == q["E"])])
            elif k in ("cnew", "cshow", "cgm"):
                lines.append(list(op) + [digest(r)])
            elif k in ("oor", "coor"):
                lines.append(list(op) + [int(all(x == -1 for x in r["oor"]))])
            elif k == "yld":
                try: t = open("%s/y%d" % (d, n)).read()
                except OSError: t = "none"
                lines.append(list(op) + [int(hashlib.md5(t.encode()).hexdigest()[:7], 16)])
            else:
                lines.append(list(op))
        if bad is None and (rc != 0 or not recs or recs[-1]["op"] != "end"):
            bad = "history %s: process ended with %s: %s" % (hist, rc, open(d + "/log", errors="replace").read()[-700:])
        subprocess.run(["rm", "-rf", d])
        return lines, bad

    @staticmethod
    def slotreq(hist, n):
        if hist[n][0] == "new": return hist[n][2]
        k = hist[n][1]
        return [op[2] for op in hist[:n] if op[0] == "new" and op[1] == k][-1]


TRACE_CFG = ("SPECIFICATION TSpec\nCONSTRAINT Track\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Slots = {1,2,3,4}\n Requests = {1}\n Decays = {1}\n Seeds = {1}\n Paths = {1}\n")


def validate(c, traces, label):
    """traces: list of (hist, lines); one TLC run per group, every group starts with the first trace (the baseline)"""
    W = vlib.NPROC
    base, rest = traces[0], traces[1:]
    groups = [[base] + rest[i::W] for i in range(W)]

    def one(i):
        g = groups[i]
        data = [l for _, ls in g for l in ls]
        last = None
        for attempt in range(2):
            r = vlib.tlc("TraceSession", cfg="trace", files={"trace.cfg": TRACE_CFG, "data.json": data}, name="%s%d" % (label, i), heap="2g")
            m = re.search(r'"REACHED", (\d+), (\d+)', r.out)
            if m and m.group(1) == m.group(2):
                return r, None
            if last is not None and m and last == m.group(1):
                break
            last = m.group(1) if m else None
        if not m:
            return r, "TLC could not evaluate the trace: " + r.out[-800:]
        n = int(m.group(1)) - 1                  # index of the line that could not be taken
        k = 0
        for h, ls in g:
            if n < k + len(ls):
                return r, "step %d %s of history %s does not observe what Session.tla requires" % (n - k, ls[n - k], h)
            k += len(ls)
        return r, "?"
    for r, bad in vlib.parallel(one, range(W)):
        c.add_tlc(r)
        if bad: c.violate(bad)
    c.traces(len(traces))
    c.count("session_steps", sum(len(ls) for _, ls in traces))


def play(c, rp, hists, label, baseline):
    """run the histories and validate them; baseline: the requests observed alone, each in a fresh process"""
    jobs = [("b%s%d" % (label, i), h) for i, h in enumerate(baseline)] + [("%s%d" % (label, i), h) for i, h in enumerate(hists)]
    res = vlib.parallel(lambda j: rp.run(*j), jobs)
    traces = []
    baselines = []
    for (n, h), (lines, bad) in zip(jobs, res):
        if bad: c.violate(bad, dict(history=h, script=rp.script(h)))
        if n.startswith("b" + label): baselines += lines
        else: traces.append((h, lines))
    validate(c, [(baseline, baselines)] + traces, label)
    for h in hists[:2]: c.sample(h)


def requests(n, salt=0):
    rnd = random.Random(vlib.SEED * 131 + salt)
    alls = [(z, 0.0) for z in events.SF] + [(z, None) for z in events.NI]
    rnd.shuffle(alls)
    out = []
    W = [-1.0, 1e-9, 1e-6, 0.0, 10.0, -1.0]
    for i in range(n):
        z, e = alls[i % len(alls)]
        if e is None: e = events.energies(rnd)
        out.append(dict(za=z, E=e, T=[0.0, 0.0, 1.5][i % 3], W=W[i % len(W)]))
    return out
