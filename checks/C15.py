#!/usr/bin/env python3
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, levels, runs, cli


def body(c):
    b = vlib.build()
    T = c.thorough
    mpi = runs.mpi_build(b)
    r = vlib.tlc("MCRun", workers=vlib.NPROC, files={"MCRun.cfg": open(vlib.VERIF + "/spec/MCRun.cfg").read().replace("Ranks = 3", "Ranks = %d" % (4 if T else 3))})
    if not r.clean: print(r.out[-2000:]); sys.exit(2)
    c.add_tlc(r)
    rnd = random.Random(vlib.SEED * 13 + 15)
    Is = [98252, 94242, 92235, 94239, 92233]
    Es = ["0", "2.53e-8", "%.3f" % rnd.uniform(6, 20), "%.2f" % rnd.uniform(.1, 6)]
    Ts = ["-1", "0", "1e-6", "-2"]
    Fs = ["out", "r.x"]
    lv = levels.text(levels.gen(vlib.SEED * 3 + 2, events.masses(), "rich"))
    rn = runs.Runner(b, Is, Es, Ts, Fs, {4}, lv, mpi)
    for R in ([1, 2, 3, 4, 6, 11] if T else [2, 3, 5]):
        plans = runs.generate(c, 400 if T else 110, R, len(Is), [1, 2], len(Es), len(Ts), len(Fs), [1, 2, 3, 4], [1, 3, rnd.randint(1, 10 ** 6)], 8, "gen15")[:60 if T else 9]
        jobs = []
        for i, (line, order) in enumerate(plans):
            s = runs.settings(line)
            # the serial run of R*N events, in one piece
            jobs.append(("m%d.%d" % (R, i), line, tuple(order), (R * s["n"],) if s["t"] not in rn.bad else (), i % 3 == 2))
        res = vlib.parallel(lambda j: rn.one(*j), jobs)
        data, metas = [], []
        for j, x in zip(jobs, res):
            if isinstance(x, str): c.violate(x, j[1])
            else: data.append(x); metas.append("cgmf.mpi.x %s, %d ranks, order %s%s" % (" ".join(rn.args(j[1])), R, list(j[2]), " at once" if j[4] else ""))
        runs.judge(c, data, metas, R, "mpi%d" % R)
        c.count("runs_with_%d_ranks" % R, len(data))
        c.count("events", sum(len(x["obs"]) for x in data))
        for m in metas[:1]: c.sample(m)
    yields(c, b, rn)
    c.assumptions = ["MPI is a stand-in (harness/mpi/mpi.h: one process per rank, collectives through files, collectives must match); no MPI library is installed",
                     "schedules: the order in which the ranks run up to their first blocking collective, as generated by TLC, or all at once"]


def yields(c, b, rn):
    """yields mode: rank 0 alone, as in a serial run"""
    import subprocess
    for R in (2, 3):
        d = vlib.sub("my%d" % R); d2 = vlib.sub("sy%d" % R)
        os.makedirs(d + "/.mpi")
        args = ["-i", "92235", "-e", "14.1", "-n", "-4", "-s", str(5 + R), "-f", "y"]
        ps = []
        for x in (d, d2):
            with open(x + "/discreteLevels.dat", "w") as f: f.write(rn.lv)
        for r in range(R):
            env = dict(vlib.ENV, STUB_MPI_RANK=str(r), STUB_MPI_SIZE=str(R), STUB_MPI_DIR=d + "/.mpi")
            ps.append(subprocess.Popen([rn.mpi] + args, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env))
        rcs = []
        for p in ps:
            try: rcs.append(p.wait(timeout=120))
            except subprocess.TimeoutExpired: p.kill(); rcs.append("timeout")
        cli.run(b, d2, args)
        got = sorted(x for x in os.listdir(d) if x.startswith("y."))
        rd = lambda p: open(p).read() if os.path.exists(p) else None
        # Run.tla: the file of rank 0 with the serial run's content; the other ranks contribute no fragment
        bad = [x for x in got if x != "y.0" and rd(os.path.join(d, x)).strip()]
        if rcs != [0] * R or bad or rd(d + "/y.0") is None or rd(d + "/y.0") != rd(d2 + "/y.0"):
            c.violate("yields with %d ranks: status %s, files %s, rank 0's file %s the serial one" % (R, rcs, got, "is" if rd(d + "/y.0") == rd(d2 + "/y.0") else "is not"), args)
        c.count("yields_runs")


vlib.run_check("C15", body)
