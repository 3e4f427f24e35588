----------------------------- MODULE Frequencies -----------------------------
(* The random choices of the system, as probabilities (in 1e-6) that follow from
   what the user supplies (level file, anisotropy and multi-chance tables) or from
   the documented distributions, and the statistical judgement of observed counts.

   A choice with probability p seen k times in n trials is accepted if
     |k - n p| <= Sigmas * sqrt(n p (1 - p)) + n * slack + 3,
   where slack (1e-6) is the documented discretisation of the choice (0 for most). *)
EXTENDS Levels, TLC

Million == 1000000
Sigmas  == 6

RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
Isqrt(x) == IF x < 1 THEN 0 ELSE Root(x, 0, 46341)

(* n <= 10^6 *)
Spread(n, p) == 1 + Isqrt(Sigmas * Sigmas * (1 + MulDiv(MulDiv(n, p, Million), Million - p, Million)))
Seen(k, n, p, slack) == Abs(k - MulDiv(n, p, Million)) <= Spread(n, p) + MulDiv(n, slack, Million) + 3

(* many choices together: 100 z^2 summed over the cells with enough expected counts either way *)
Enough(n, p) == MulDiv(n, p, Million) >= 25 /\ MulDiv(n, Million - p, Million) >= 25
ZZ(k, n, p, slack) == LET d == Min2(4000, Max2(0, Abs(k - MulDiv(n, p, Million)) - MulDiv(n, slack, Million)))
               IN  Min2(100000, (d * d * 100) \div MulDiv(MulDiv(n, p, Million), Million - p, Million))
(* zs: the 100 z^2 of m cells *)
Together(zz, m) == zz <= 100 * m + 100 * (15 + Isqrt(128 * m))          \* m + 8 sqrt(2 m) + 15

(* --------------------------------------------------------------- directions *)
(* a cosine that is uniform in -1..1, an azimuth that is uniform: m equal cells *)
Uniform(m) == [i \in 1..m |-> Million \div m]

(* |cos| of a direction with density 1 + (b - 1) cos^2, b in 1e-3: chance to lie below i/m *)
Below(b, i, m) == LET x3 == (1000 * i * i * i) \div (m * m * m)        \* 1e-3
                      x  == (Million * i) \div m
                  IN  MulDiv(3 * x + (b - 1000) * x3, 1000, 3000 + (b - 1000))
Polar(b, m) == [i \in 1..m |-> Below(b, i, m) - Below(b, i - 1, m)]

(* mean of cos^2 (1e-6) for that density: (1/3 + (b-1)/5) / (1 + (b-1)/3); its spread for one direction is below 0.31 *)
MeanCos2(b) == LET a == b - 1000 IN MulDiv(5000 + 3 * a, Million, 5 * (3000 + a))
Cos2(mean, n, b, slack) == Abs(mean - MeanCos2(b)) <= MulDiv(310000, Sigmas * 1000, Isqrt(n) * 1000) + slack

(* mean (1e-6) of n values that are uniform in 0..1 *)
Middle(mean, n, slack) == Abs(mean - 500000) <= MulDiv(288675, (Sigmas - 1) * 1000, Isqrt(n) * 1000) + slack

(* the ends of a distribution: below 0.1, 0.3, 1, 3, 10 %, and the same from above *)
TailEnds == << 0, 1000, 3000, 10000, 30000, 100000, 900000, 970000, 990000, 997000, 999000, 1000000 >>
Tails == [i \in 1..11 |-> TailEnds[i + 1] - TailEnds[i]]

(* the anisotropy coefficient of a target: tabulated in steps of 0.1 MeV, the nearest entry counts; E in keV *)
Anisotropy(row, E) == row[(E + 50) \div 100 + 1]

(* ------------------------------------------------------ multi-chance fission *)
(* a table is a sequence of << E (keV), << weights (1e-3 percent) >> >>; linear between its entries *)
Weights(tab, E) ==
  LET i == CHOOSE i \in 2..Len(tab) : E <= tab[i][1] /\ \A j \in 2..(i - 1) : E > tab[j][1]
      lo == tab[i - 1]   hi == tab[i]
  IN  [j \in 1..Len(hi[2]) |-> lo[2][j] + MulDiv(hi[2][j] - lo[2][j], E - lo[1], hi[1] - lo[1])]
RECURSIVE Total(_, _)
Total(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Total(s, i + 1)
Table(tab, E) == LET w == Weights(tab, E) IN [j \in 1..Len(w) |-> MulDiv(w[j], Million, Total(w, 1))]

(* n neutrons leave the nucleus with at most Room; it must reach the fission barrier.
   me[n + 1], bar[n + 1]: mass excess and barrier (keV) after n neutrons. A chance that
   is closed counts as the highest one below it that is open.                        *)
Mn == 8071
Room(me, E, n) == E + me[2] - me[n + 1] - (n - 1) * Mn
Open(me, bar, E, n) == n = 0 \/ Room(me, E, n) >= bar[n + 1]
Taken(me, bar, E, n) == CHOOSE k \in 0..n : Open(me, bar, E, k) /\ \A j \in (k + 1)..n : ~Open(me, bar, E, j)
Marginal(me, bar, E, n) == n > 0 /\ Abs(Room(me, E, n) - bar[n + 1]) <= 60         \* within an energy bin
RECURSIVE Gather(_, _, _, _, _, _)
Gather(p, me, bar, E, k, n) ==
  IF n >= Len(p) THEN 0 ELSE (IF Taken(me, bar, E, n) = k THEN p[n + 1] ELSE 0) + Gather(p, me, bar, E, k, n + 1)
Chances(tab, E, me, bar) == LET p == TLCEval(Table(tab, E)) IN [k \in 1..Len(p) |-> Gather(p, me, bar, E, k - 1, 0)]

(* ----------------------------------------------------------- discrete decays *)
(* chance that a level de-excites towards level f (1-based) by a photon / by conversion *)
RECURSIVE BranchSum(_, _, _, _)
BranchSum(br, i, f, photon) ==
  IF i > Len(br) THEN 0
  ELSE (IF br[i][1] + 1 # f THEN 0
        ELSE LET share == MulDiv(br[i][2], Million, SumW(br, 1))
                 c == br[i][3]
             IN  IF photon THEN MulDiv(share, 1000, 1000 + c) ELSE MulDiv(share, c, 1000 + c))
       + BranchSum(br, i + 1, f, photon)
PhotonTo(s, k, f) == BranchSum(Branches(s, k), 1, f, TRUE)

(* decayed within x half-lives, x in quarters: 1 - 2^(-x) *)
Decayed(q) == IF q = 1 THEN 159104 ELSE IF q = 2 THEN 292893 ELSE IF q = 4 THEN 500000 ELSE IF q = 8 THEN 750000
              ELSE IF q = 12 THEN 875000 ELSE IF q = 16 THEN 937500 ELSE IF q = 24 THEN 984375 ELSE Million
=============================================================================
