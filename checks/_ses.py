import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, levels, events, session
from session import ALL, cfg, generate, requests, Replay, play

DECAYS = [(55140, 8.0), (38096, 6.5), (53135, 12.0)]
ASSUME = ["an observation is compared through a 28-bit digest of every public getter's exact value",
          "operation histories are those TLC generated in this run; requests, seeds and the level file are drawn from VERIF_SEED"]


def raws(salt=0):
    return levels.gen(vlib.SEED * 17 + salt, events.masses(), "rich")


def alone(reqs, seeds, decays=(), yields=True):
    """every request alone in a fresh process"""
    out = []
    for s in seeds:
        if s == 0: continue
        for r in range(1, len(reqs) + 1):
            out.append([["new", 1, r, s]])
            if yields: out.append([["yld", r, s]])
        for d in range(1, len(decays) + 1):
            out.append([["cgm", d, s]])
    return out
