#!/usr/bin/env python3
from _ses import *


def body(c):
    c.assumptions = ASSUME
    b = vlib.build()
    T = c.thorough
    # 1. every ordered pair (thorough: triple of a few) of reactions
    n = 26 if T else 13
    reqs = requests(n, 1)
    rp = Replay(b, reqs, DECAYS, [0, 11 + vlib.SEED, 500 + vlib.SEED], raws())
    hs = generate(c, "pairs", cfg(1, n, 1, [1], 1, 2, ["new"]))
    # concatenate pairs sharing the first request: fewer processes, longer histories
    by = {}
    for h in hs: by.setdefault(h[0][2], []).append(h)
    hists = []
    for r, g in by.items():
        for i in range(0, len(g), 5):
            hists.append([op for h in g[i:i + 5] for op in h])
    play(c, rp, hists, "pair", alone(reqs, [1], yields=False))
    if c.violations: return
    # 2. any operations in between
    nr = 5
    for rnd in range(6 if T else 1):
        reqs = requests(nr, 20 + rnd)
        rp = Replay(b, reqs, DECAYS, [0, 31 + vlib.SEED + rnd, 900 + rnd], raws(rnd))
        hists = generate(c, "walk", cfg(3, nr, 2, [0, 1, 2], 2, 14, ALL), simulate=400 if T else 90, depth=14)
        hists = [h + [["new", 1, 1 + i % nr, 1 + i % 2], ["cgm", 1 + i % 2, 1]] for i, h in enumerate(hists)]
        play(c, rp, hists, "walk", alone(reqs, [1, 2], DECAYS[:2]))
        if c.violations: return
    # 3. every short history, then a probe
    nr = 2
    reqs = requests(nr, 50)
    rp = Replay(b, reqs, DECAYS, [0, 77 + vlib.SEED], raws(9))
    hists = generate(c, "short", cfg(1, nr, 1, [1], 1, 3 if T else 2, [k for k in ALL if k not in ("oor", "coor", "show", "cshow", "data")]))
    play(c, rp, [h + [["new", 1, 1, 1], ["new", 1, 2, 1]] for h in hists], "short", alone(reqs, [1], DECAYS[:1]))
    c.cov["exhaustive_short_histories"] = len(hists)


vlib.run_check("C10", body)
