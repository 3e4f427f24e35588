"""The event checks C02-C09: one corpus of events of the real code each, judged by TLC
(TraceEvent.tla) against the laws of one property, plus the exhaustive toy world."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, events, pairs

ASSUME = ["energies, momenta and directions are compared in fixed point (eV, 1e-4 MeV/c, 1e-6); tolerances in spec/FissionEvent.tla",
          "masses are those of data/masses.dat; discrete level schemes are synthetic (the repository ships none) and are given to the library as discreteLevels.dat",
          "nature of the random stream: std::mt19937 through the public set_rng"]


def toy(c, big):
    r = vlib.tlc("MCEvent", cfg="MCEventBig" if big else "MCEvent", workers=vlib.NPROC, timeout=1500 if big else 300, heap="8g")
    if not r.clean:
        print(r.out[-3000:])
        sys.exit(2)                    # the model, not the code
    c.add_tlc(r)
    c.cov["toy_world_states"] = r.distinct


def main(pid, laws, nquick, nthorough, photons, times=False, windows=True, kinds=None, toyworld=False, kepost=False, extra=None, yields=None):
    def body(c):
        c.assumptions = ASSUME
        for rnd in range(6 if c.thorough else 1):
            events.judge(c, laws, nthorough if c.thorough else nquick, photons=photons, times=times, windows=windows, kinds=kinds,
                         salt=rnd * 100 + int(pid[1:]), want_kepost=kepost)
            if c.violations:
                break
        if yields and not c.violations: pairs.many(c, yields, 1200 if c.thorough else 130, 400 if c.thorough else 200, int(pid[1:]))
        if extra: extra(c)
        if (toyworld or c.thorough) and not c.violations:
            toy(c, c.thorough)
    vlib.run_check(pid, body)
