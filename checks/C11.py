#!/usr/bin/env python3
from _ses import *


def body(c):
    c.assumptions = ASSUME + ["memory errors are those AddressSanitizer and UndefinedBehaviorSanitizer see in the replayed histories"]
    T = c.thorough
    kinds = ["new", "free", "show", "oor", "cnew", "cclean", "cshow", "coor", "yld", "cgm", "cleanup"]
    nr = 4
    b = vlib.build()
    for rnd in range(4 if T else 1):
        reqs = requests(nr, 120 + rnd)
        rp = Replay(b, reqs, DECAYS, [0, 5 + vlib.SEED + rnd], raws(20 + rnd))
        hists = generate(c, "live", cfg(4, nr, 1, [0, 1], 1, 22, kinds), simulate=300 if T else 60, depth=22)
        hists = [h + [[k, s] for s in live(h) for k in ("show", "oor")] + [["free", s] for s in live(h)] for h in hists]
        play(c, rp, hists, "live", alone(reqs, [1], DECAYS[:1]))
        if c.violations: return
    a = vlib.build(asan=True)
    env = dict(vlib.ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=1")
    for k in ("MALLOC_TRIM_THRESHOLD_", "MALLOC_MMAP_MAX_", "MALLOC_TOP_PAD_"): env.pop(k)
    reqs = requests(13, 150)
    rp = Replay(a, reqs, DECAYS, [0, 9 + vlib.SEED], raws(40), env=env, timeout=600)
    hists = generate(c, "asan", cfg(3, 13, 2, [0, 1], 1, 12, kinds), simulate=160 if T else 16, depth=12)
    hists = [h + [["free", s] for s in live(h)] + [["cleanup"]] for h in hists]
    play(c, rp, hists, "asan", [[["new", 1, 1, 1]]])
    c.count("sanitized_histories", len(hists))
    # a level file without any nucleus, and no level file at all
    rp = Replay(a, reqs, DECAYS, [0, 9 + vlib.SEED], {}, env=env, timeout=600)
    play(c, rp, [[["new", 1, 1 + i, 1], ["cgm", 1, 1]] for i in range(8 if not T else 13)], "bare", [[["new", 1, 1, 1]]])


def live(h):
    s = set()
    for op in h:
        if op[0] == "new": s.add(op[1])
        if op[0] == "free": s.discard(op[1])
    return sorted(s)


vlib.run_check("C11", body)
