"""Synthetic discrete level schemes, written in the fixed-column format that
CGMF reads (discreteLevels.dat is not part of the repository).

The *file* holds what a user would supply (branching ratios that need not be
normalised, levels without any de-exciting gamma ray, internal conversion
coefficients, half-lives); the scheme that should result is computed in TLA+
(Levels.tla) from the same raw description, never from the code under test.
"""
import random

ZMIN, ZMAX = 26, 72


def gen(seed, masses, kind="rich", zmin=ZMIN, zmax=ZMAX):
    """raw scheme: {za: [ {E(eV), J2, P, T(s), br:[(final, weight1e6, icc)]} ]}

    kind: 'bare'  - no nucleus at all
          'rich'  - most nuclei, isomers, conversions, levels without gammas
          'prompt'- no half-lives
    """
    rnd = random.Random(seed)
    out = {}
    if kind == "bare":
        return out
    for za in sorted(masses):
        z, a = divmod(za, 1000)
        if not (zmin <= z <= zmax) or not (2.05 * z <= a <= 2.9 * z):
            continue
        if rnd.random() < 0.05:
            continue                                # absent nucleus: ground state only
        odd = a % 2
        ee = z % 2 == 0 and a % 2 == 0
        j0 = 0 if ee else (rnd.choice([1, 3, 5, 7, 9]) if odd else rnd.choice([2, 4, 8, 10]))
        p0 = 1 if ee else rnd.choice([-1, 1])
        levs = [dict(E=0, J2=j0, P=p0, T=0.0 if rnd.random() < .5 else 3.0, br=[])]
        n = rnd.choice([1, 2, 4, 6, 8, 10, 12])
        e = 0
        for i in range(1, n):
            e += rnd.randint(60000, 420000)
            j2 = rnd.randint(0, 9) * 2 + odd
            lv = dict(E=e, J2=j2, P=rnd.choice([-1, 1]), T=0.0, br=[])
            t = rnd.random()
            if kind != "prompt":
                if t < .12: lv["T"] = round(rnd.uniform(1, 9), 3) * 1e-9
                elif t < .24: lv["T"] = round(rnd.uniform(1, 9), 3) * 1e-7
                elif t < .32: lv["T"] = round(rnd.uniform(1, 9), 3) * 1e-3
                elif t < .36: lv["T"] = round(rnd.uniform(1, 9), 3) * 1e2
                elif t < .5: lv["T"] = -1.0         # unknown half-life: prompt
            if rnd.random() > .25:
                fin = sorted(rnd.sample(range(i), rnd.randint(1, min(i, 4))))
                if rnd.random() < .5: fin.reverse()
                for f in fin:
                    icc = rnd.choice([0, 0, 0, .25, 1.5, 8.]) if kind == "rich" else 0.0
                    lv["br"].append((f, rnd.randint(20000, 1000000), icc))
                if rnd.random() < .1:
                    lv["br"] = [(f, 0, c) for f, w, c in lv["br"]]   # no intensities known
            levs.append(lv)
        out[za] = levs
    return out


def text(raw):
    lines = ["# synthetic level schemes"]
    for za in sorted(raw):
        levs = raw[za]
        lines.append("%6s%6i%5i" % ("", za, len(levs)))
        for lv in levs:
            lines.append("%10.6f%5.1f%3i%13.5E%3i" % (lv["E"] / 1e6, lv["J2"] / 2., lv["P"], lv["T"], len(lv["br"])))
            for f, w, c in lv["br"]:
                lines.append("%3i%9.6f%10.3E" % (f, w / 1e6, c))
    return "\n".join(lines) + "\n"


def read_masses(path):
    m = {}
    for l in open(path):
        if l[0] == '#':
            continue
        l = l.rstrip('\n')
        while l.strip():
            m[int(l[:7])] = float(l[7:18])
            l = l[18:]
    return m
