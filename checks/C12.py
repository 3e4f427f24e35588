#!/usr/bin/env python3
from _ses import *


def body(c):
    c.assumptions = ASSUME
    T = c.thorough
    b = vlib.build()
    kinds = ["new", "cnew", "cclean", "cshow", "coor", "free", "show"]
    for rnd in range(5 if T else 2):
        nr = 7
        reqs = requests(13, 200 + rnd)[(rnd % 2) * 6:][:nr]
        seeds = [0, 3 + vlib.SEED + 10 * rnd, 1000 + rnd]
        rp = Replay(b, reqs, DECAYS, seeds, raws(50 + rnd))
        hists = generate(c, "capi", cfg(1, nr, 1, [0, 1, 2], 1, 14, kinds), simulate=200 if T else 50, depth=14)
        # the same request and stream through both interfaces
        hists += [[["cnew", r, s], ["cshow"], ["coor"], ["new", 1, r, s], ["cclean"], ["cclean"], ["cnew", r, s], ["cnew", r, 0], ["new", 2, r, s], ["new", 2, r, 0]]
                  for r in range(1, nr + 1) for s in (1, 2)]
        play(c, rp, hists, "capi%d" % rnd, alone(reqs, [1, 2], yields=False))
        if c.violations: return


vlib.run_check("C12", body)
