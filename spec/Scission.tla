------------------------------- MODULE Scission -------------------------------
(* What the scission of a nucleus gives: masses, charges, total kinetic energy, the
   shares of the excitation energy, spins. The laws of the manual and of the headers of
   the data files, in fixed point; everything numeric comes from the data files.

   Units: energies keV unless said otherwise, parameters 1e-6, masses (as numbers on a
   line) 1e-4, probabilities 1e-6.                                                  *)
EXTENDS Fixed, FiniteSets, TLC

Million == 1000000
RECURSIVE Sum(_, _, _)
Sum(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + Sum(f, lo + 1, hi)

(* ------------------------------------------------------------------ functions *)
(* e^(-x) in 1e-9, x >= 0 in 1e-6 *)
E1 == << 1000000000, 367879441, 135335283, 49787068, 18315639, 6737947, 2478752, 911882, 335463, 123410,
         45400, 16702, 6144, 2260, 832, 306, 113, 41, 15, 6 >>
E2 == << 1000000, 969233, 939413, 910510, 882497, 855345, 829029, 803523, 778801, 754840, 731616, 709106, 687289, 666144, 645649, 625784, 606531, 587870, 569783, 552252, 535261, 518793, 502832, 487361, 472367, 457833, 443747, 430095, 416862, 404037, 391606, 379557 >>
Exp9(x) == IF x >= 20 * Million THEN 0
           ELSE LET f == x % Million
                    d == f % 31250
                    p == Million - d + (d * d) \div 2000000 - (((d * d) \div 2000000) * d) \div 3000000
                IN  MulDivPos(MulDivPos(E1[x \div Million + 1], E2[f \div 31250 + 1], Million), p, Million)
Exp6(x) == Exp9(x) \div 1000
Grow6(x) == MulDivPos(Million, Million, Exp6(x))                    \* e^x, x small

(* the normal distribution function in 1e-6, z in 1e-4 *)
Beyond(z) == LET t == MulDivPos(Million, 250000, (10000000 + MulDivPos(z, 2316419, 10000)) \div 40) \* 1 / (1 + 0.2316419 z)
               b(c, x) == MulDiv(c + x, t, Million)
               s == b(319382, b(-356564, b(1781478, b(-1821256, b(1330274, 0)))))
           IN  MulDiv(MulDivPos(398942, Exp6(MulDivPos(z, z, 200)), Million), s, Million)
Phi(z) == IF z >= 60000 THEN Million ELSE IF z <= -60000 THEN 0
          ELSE IF z >= 0 THEN Million - Beyond(z) ELSE Beyond(-z)

(* 1 / (1 + e^t), t in 1e-6 *)
Fermi(t) == LET e == Exp6(Abs(t))
                w == MulDivPos(e, 500000, (Million + e) \div 2)
            IN  IF t >= 0 THEN w ELSE Million - w

(* cube root of n in 1e-4 *)
RECURSIVE Cube(_, _, _)
Cube(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN
                        IF MulDivPos(MulDivPos(m, m, 10000), m, 10000) <= n * 10000 THEN Cube(n, m, hi) ELSE Cube(n, lo, m)
Cbrt(n) == Cube(n, 10000, 80000)

(* tables over the excitation energies 0, 1, .. 10, 12, .. 20, 25, .. 100 MeV: linear in between *)
GridE == << 0, 1000, 2000, 3000, 4000, 5000, 6000, 7000, 8000, 9000, 10000, 12000, 14000, 16000, 18000, 20000, 25000, 30000, 35000,
            40000, 45000, 50000, 55000, 60000, 65000, 70000, 75000, 80000, 85000, 90000, 95000, 100000 >>
Cell(E) == IF E < 10000 THEN E \div 1000 + 1 ELSE IF E < 20000 THEN (E - 10000) \div 2000 + 11 ELSE (E - 20000) \div 5000 + 16
At(row, E) == LET k == Cell(E) IN row[k] + MulDiv(row[k + 1] - row[k], E - GridE[k], GridE[k + 1] - GridE[k])

(* --------------------------------------------------------- excitation energies *)
(* TXE is shared so that the temperatures of the Fermi gases, U = a T^2, have the ratio R (1e-3).
   a (1e-4) depends on U: from equal shares, the shares are corrected until the a of the light
   fragment stays the same to 0.01. The set of the light shares that are good enough.          *)
Heavy(a, b, R, X) == MulDivPos(X, b, MulDivPos(a, R * R, Million) + b)
RECURSIVE Corrected(_, _, _, _, _, _, _)
Corrected(l, h, R, X, a, b, n) ==
  IF n = 0 THEN {}
  ELSE LET H == Heavy(a, b, R, X)
           a2 == At(l, X - H)
       IN  (IF Abs(a2 - a) <= 102 THEN {X - H} ELSE {}) \cup Corrected(l, h, R, X, a2, At(h, H), n - 1)
Shares(l, h, R, X) == Corrected(l, h, R, X, At(l, X \div 2), At(h, X \div 2), 12)
Shared(l, h, R, UL, UH) == LET X == UL + UH IN \E u \in Shares(l, h, R, X) : Abs(u - UL) <= 6 + X \div 1500

(* ---------------------------------------------------------------------- masses *)
(* par: w_a w_b mu_a mu_b s_a s_b (two peaks), s_a s_b (symmetric), 1e-4; a: mass of the fissioning
   nucleus; shift: a minus the mass the parameters are for; E: incident energy that would excite it so *)
Gauss(d, w, s) == LET r == MulDiv(d, 10000, s) IN        \* 1e-8
                  IF Abs(r) > 63000 THEN 0 ELSE MulDiv(MulDiv(w, 398942, s), Exp6(MulDivPos(Abs(r), Abs(r), 200)), Million)
Line(p, q, E) == p + MulDiv(q, E, 1000)
Low == 40                                              \* no lighter fragments
MassLaw(par, a, shift, E) ==
  LET t(k) == LET x == MulDiv(10 * E - par[k], Million, Abs(par[k + 1])) IN IF par[k + 1] < 0 THEN -x ELSE x
      w1 == Fermi(t(1))                 w2 == Fermi(t(7))               w0 == 2 * Million - 2 * w1 - 2 * w2
      m1 == 10000 * shift + Line(par[3], par[4], E)                     m2 == 10000 * shift + Line(par[9], par[10], E)
      s1 == Line(par[5], par[6], E)     s2 == Line(par[11], par[12], E) s0 == Line(par[13], par[14], E)
      y(A) == LET x == 10000 * A
                  g == Gauss(x - 5000 * a, w0, s0) + Gauss(x - m1, w1, s1) + Gauss(x - (10000 * a - m1), w1, s1)
                       + Gauss(x - m2, w2, s2) + Gauss(x - (10000 * a - m2), w2, s2)
              IN  IF g > 1000 THEN g ELSE 0
      f == TLCEval([A \in Low..(a - Low) |-> y(A)])
      tot == Sum(f, Low, a - Low)
  IN  TLCEval([A \in Low..(a - Low) |-> MulDivPos(f[A], 1000, tot \div 1000)])
(* of the heavier fragment: cumulated, below and including *)
HeavyMasses(Y, a) ==
  LET top == a - Low
      p == TLCEval([A \in ((a + 1) \div 2)..top |-> IF 2 * A = a THEN Y[A] ELSE Y[A] + Y[a - A]])
      RECURSIVE F(_, _)
      F(A, acc) == IF A > top THEN << >> ELSE << << acc, acc + p[A] >> >> \o F(A + 1, acc + p[A])
  IN  TLCEval(F((a + 1) \div 2, 0))                               \* index A - (a + 1) \div 2 + 1

(* -------------------------------------------------------- total kinetic energy *)
(* tk: << a, E0, b, d, A0 (1e-2), Amax, c_0 .. c_8, A0, Amax, c_0 .. c_8 >>; a, E0 keV; b, d 1e-4;
   c_j for powers of (A - A0) / 50, in 0.1 keV                                                 *)
Viola(Z, A) ==
  LET x == MulDivPos(Z * Z * 1000, 10000, Cbrt(A))                 \* Z^2 / A^(1/3) in 1e-3
      k == CASE Z = 92 -> << -2437838, 4329546 >> [] Z = 93 -> << -2472623, 4462184 >>
             [] Z = 94 -> << -1786682, 3558652 >> [] Z = 98 -> << -3443121, 6208467 >>
  IN  MulDiv(MulDivPos(x, 1189, 10000) + 7300, k[2] + MulDiv(x, k[1], Million), Million)
MeanTKE(tk, E) == IF E <= tk[2] THEN tk[1] + MulDiv(tk[3], E, 10000)
                  ELSE tk[1] + MulDiv(tk[3] - tk[4], tk[2], 10000) + MulDiv(tk[4], E, 10000)
Poly(tk, k, A) == LET y == (100 * A - tk[k]) * 200
                      RECURSIVE H(_, _)
                      H(j, acc) == IF j < 0 THEN acc ELSE H(j - 1, MulDiv(acc, y, Million) + tk[k + 2 + j])
                  IN  H(8, 0)
Shape(tk, A) == IF A <= tk[6] THEN Poly(tk, 5, A) ELSE 1400000
Width(tk, A) == IF A <= tk[17] THEN Poly(tk, 16, A) ELSE 70000
(* << mean, width >> (0.1 keV) by heavy mass, from (a + 1) / 2 on: the shape, scaled to the mean of all *)
KineticLaw(tk, mean, Y, a) ==
  LET top == a - Low
      sh == TLCEval([A \in ((a + 1) \div 2)..top |-> IF Y[A] + Y[a - A] > 0 THEN Shape(tk, A) ELSE 0])
      S == Sum(TLCEval([A \in Low..top |-> MulDiv(Y[A], sh[IF 2 * A >= a THEN A ELSE a - A], Million)]), Low, top)
  IN  TLCEval([k \in 1..(top - (a + 1) \div 2 + 1) |-> LET A == k + (a + 1) \div 2 - 1 IN << MulDiv(sh[A], mean, S \div 10), Width(tk, A) >>])
(* how far up its distribution a value is (1e-4); it cannot exceed the energy there is *)
KineticAt(law, tke, most) ==
  LET z(v) == MulDiv(Max2(-2000000, Min2(2000000, v - law[1])), 10000, Max2(1000, Min2(Million, Abs(law[2]))))
      m == Phi(Min2(70000, z(most)))
  IN  IF m < 200 THEN -1 ELSE MulDivPos(Phi(Max2(-70000, Min2(70000, z(tke)))), 10000, m)

(* ------------------------------------------------------------------------ spins *)
(* B^2 (1e-3) = alpha I T / hbar^2, I a rigid body of deformation beta (1e-3), r0 = 1.2 fm; alpha 1e-5, T 1e-4 *)
B2(A, beta, alpha, T) ==
  LET r == Cbrt(A)
      body == A * MulDivPos(r, r, Million)                          \* A^(5/3) in 1e-2
      def == 10000 + (31 * beta) \div 10 + (44 * beta * beta) \div 10000
  IN  MulDivPos(MulDivPos(MulDivPos(MulDivPos(body, def, 10000), alpha, 100000), T, 10000), 138892, Million)
Alpha(row, E) == row[1] + (IF E < 0 THEN 0 ELSE MulDiv(row[2], E, 1000))
(* cumulated chances of the spins 0, 1, .. 49 (or 1/2, 3/2, ..); b: B^2 in 1e-3 *)
SpinLaw(b, odd) ==
  LET w == TLCEval([j \in 1..50 |-> LET J2 == 2 * (j - 1) + odd IN MulDivPos(J2 + 1, Exp9(MulDivPos(J2 * (J2 + 2), 125000000, b)), 1000)])
      tot == Sum(w, 1, 50)
      RECURSIVE F(_, _)
      F(j, acc) == IF j > 50 THEN << >> ELSE << << MulDivPos(acc, 1000, tot \div 1000), MulDivPos(acc + w[j], 1000, tot \div 1000) >> >> \o F(j + 1, acc + w[j])
  IN  TLCEval(F(1, 0))

(* ---------------------------------------------------------------------- charges *)
(* A. C. Wahl, LA-13928 (2002): the Zp model; Z, A, PE (keV) of the nucleus the neutron makes *)
Eq17(c, Z, A, PE) == c[1] + c[2] * (Z - 92) + c[3] * (A - 236) + MulDiv(c[4], PE - 6551, 1000) + c[5] * (A - 236) * (A - 236)
Eq19(c, Z, PE) == LET p1 == c[1] + c[3] * (Z - 92)
                      p2 == c[2] + c[4] * (Z - 92)
                  IN  IF c[5] = 0 THEN p1 ELSE p1 + MulDiv(p2 - p1, Million - Grow6(MulDiv(-c[5], PE, 1000)), Million)
WLow == [s140 |-> << 566000, 0, 6400, 10900, 0 >>, d140 |-> << -487000, 0, 18000, 0, -2030 >>, fz140 |-> << 1207000, 0, -42000, 0, 2200 >>,
         fn140 |-> << 1076000, 0, 0, 0, 0 >>, ssl |-> << -3800, 0, 0, 0, 0 >>, dsl |-> << -8000, 0, 0, 0, 0 >>, fzsl |-> << 3000, 0, 0, 0, 0 >>,
         fnsl |-> << -600, 0, 0, 0, 0 >>, sl50 |-> << 191000, 0, -7600, 0, 0 >>, s50 |-> << 356000, 60000, 0, 0, 0 >>, dmax |-> << 699000, 0, 0, 0, 0 >>,
         sslw |-> << -45000, 9400, 0, 0, 0 >>, dslw |-> << 0, -4500, 0, 0, 0 >>, fzslw |-> << 159000, -28000, 0, 0, 0 >>, fnslw |-> << 39000, 0, 0, 0, 0 >>]
None5 == << 0, 0, 0, 0, 0 >>
WHigh == [s140 |-> << 542000, 1310000, 33000, 0, -5000 >>, d140 |-> << -428000, 0, 0, 164000, -11600 >>, fz140 |-> << Million, 0, 0, 0, 0 >>,
          fn140 |-> << Million, 0, 0, 0, 0 >>, ssl |-> None5, dsl |-> None5, fzsl |-> None5, fnsl |-> None5, sl50 |-> << 191000, 0, -7600, 0, 0 >>,
          s50 |-> << 542000, 1310000, 33000, 0, -5000 >>, dmax |-> None5, sslw |-> None5, dslw |-> None5, fzslw |-> None5, fnslw |-> None5]
Wahl(Z, A, PE) ==
  LET p(k) == IF PE <= 8000 THEN Eq17(WLow[k], Z, A, PE)
              ELSE IF PE <= 20000 THEN MulDiv(Eq17(WLow[k], Z, A, 8000), 20000 - PE, 12000) + MulDiv(Eq19(WHigh[k], Z, 20000), PE - 8000, 12000)
              ELSE Eq19(WHigh[k], Z, PE)
      q == TLCEval([k \in DOMAIN WLow |-> p(k)])
  IN  TLCEval([q EXCEPT !.s50 = IF @ <= 0 THEN q.s140 ELSE @])
(* boundaries between the mass regions, 1e-4 *)
Bounds(P, Z, A) ==
  LET f1 == Max2(0, Min2(14, 250 - A))
      k1 == (500000 * A) \div Z - MulDiv(P.dmax, 10000, P.sl50)
      k2 == MulDiv(50 * Million - P.dmax, A, Z) \div 100
      am == (f1 * k1 + (14 - f1) * k2) \div 14
      b4 == MulDiv(P.dmax - P.d140 + MulDiv(am, P.sl50, 10000) + 140 * P.dsl, 10000, P.sl50 + P.dsl)
      b2 == 770000 + 360 * (A - 236)
  IN  TLCEval([b1 |-> 700000, b2 |-> b2, b3 |-> 10000 * A - b4, ba |-> 10000 * A - am, bb |-> am, b4 |-> b4, b5 |-> 10000 * A - b2, b6 |-> 10000 * (A - 70)])
(* << displacement, width, F_Z, F_N >> for fragment mass A of nucleus Ac *)
Zp(P, B, Ac, A) ==
  LET x == 10000 * A                     \* the mass and its complement
      cx == 10000 * (Ac - A)
      m(s, d) == MulDiv(s, d, 10000)
      dB5 == P.d140 + m(P.dsl, B.b5 - 1400000)        sB5 == P.s140 + m(P.ssl, B.b5 - 1400000)
      peak(h) == << P.d140 + m(P.dsl, h - 1400000), P.s140 + m(P.ssl, h - 1400000), P.fz140 + m(P.fzsl, h - 1400000), P.fn140 + m(P.fnsl, h - 1400000) >>
      wing(h) == << dB5 - m(P.dslw, h - B.b5), sB5 + m(P.sslw, h - B.b5), P.fz140 + m(P.fzslw, h - B.b5), P.fn140 + m(P.fnslw, h - B.b5) >>
      far == << dB5, sB5, P.fz140, P.fn140 >>
      steep(h) == << P.dmax - m(P.sl50, h - B.bb), P.s50, Million, Million >>
      heavy(h) == IF h >= B.b6 THEN far ELSE IF h >= B.b5 THEN wing(h) ELSE IF h >= B.b4 THEN peak(h) ELSE steep(h)
      neg(v) == << -v[1], v[2], v[3], v[4] >>
  IN  IF x > B.ba /\ x < B.bb
      THEN << -P.dmax + MulDiv(2 * P.dmax, (x - B.ba) \div 10, (B.bb - B.ba) \div 10), P.s140 - m(P.ssl, 1400000 - B.bb), Million, Million >>
      ELSE IF x >= B.bb THEN heavy(x) ELSE neg(heavy(cx))
(* chances of the charges of mass A: [Z |-> 1e-6] *)
ChargeLaw(P, B, Z, Ac, A) ==
  LET v == TLCEval(Zp(P, B, Ac, A))
      zp == MulDiv(Z * A, Million, Ac) + v[1]
      z0 == (zp + 500000) \div Million
      odd(f, even) == IF even THEN f ELSE MulDiv(Million, Million, f)
      w(i) == LET g == Phi(MulDiv(i * Million - zp + 500000, 10000, v[2])) - Phi(MulDiv(i * Million - zp - 500000, 10000, v[2]))
              IN  MulDiv(MulDiv(g, odd(v[3], i % 2 = 0), Million), odd(v[4], (A - i) % 2 = 0), Million)
      f == TLCEval([i \in (z0 - 7)..(z0 + 7) |-> IF v[2] <= 0 THEN (IF i = z0 THEN Million ELSE 0) ELSE w(i)])
      tot == Sum(f, z0 - 7, z0 + 7)
  IN  TLCEval([i \in (z0 - 7)..(z0 + 7) |-> MulDiv(f[i], 500000, tot \div 2)])
(* of the light fragment; either fragment's charge may be the one that is drawn. Its charges in the order s (a sequence): cumulated *)
Pick(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0
LightCharge(pl, ph, Z, i) == (Pick(pl, i) + Pick(ph, Z - i)) \div 2
=============================================================================
