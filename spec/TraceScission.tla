---------------------------- MODULE TraceScission ----------------------------
(* Fragment pairs made by the real code against Scission.tla. data.json: a sequence of runs
     [Z, A (compound nucleus), npre (neutrons that left before), E (keV), sf, me (of the fissioning nucleus, of the
      next lighter one), PE, ya, tk, al (rows by mass number), R, nuc (nuclides: ldp, temp, beta), laws, pairs]
   pair: << zl, al, tke (0.1 keV), ul, 2 jl, zh, ah, uh, 2 jh, index l, index h, me l, me h, four random numbers (1e-6) >>
   Printed for each run: the pairs that are not shared right, and for every random quantity how many pairs lie
   in each of 20 equally likely parts of its distribution, in its tails, and the sum of its positions (1e-4); by distance
   from symmetry (bands) and parity of the light mass.                                                          *)
EXTENDS Scission, Json, SequencesExt

D == JsonDeserialize("data.json")
N == Len(D)
VARIABLE i
Init == i \in 1..N

Row(rows, id) == CHOOSE r \in ToSet(rows) : r.id = id
Has(rows, id) == \E r \in ToSet(rows) : r.id = id

Bands == 6
Empty == [b \in 1..(2 * Bands) |-> [c |-> [x \in 1..20 |-> 0], t |-> [x \in 1..11 |-> 0], s |-> 0, n |-> 0]]
Ends == << 10, 30, 100, 300, 1000, 9000, 9700, 9900, 9970, 9990, 10001 >>
InTails(u) == CHOOSE t \in 1..11 : u < Ends[t] /\ \A y \in 1..(t - 1) : u >= Ends[y]
(* us: << position (1e-4), band >> *)
Put(h, u) == IF u[1] < 0 THEN h
             ELSE LET x == Min2(20, u[1] \div 500 + 1) IN
                  [h EXCEPT ![u[2]] = [c |-> [@.c EXCEPT ![x] = @ + 1], t |-> [@.t EXCEPT ![InTails(u[1])] = @ + 1], s |-> @.s + u[1], n |-> @.n + 1]]
Hist(us) == FoldLeft(Put, TLCEval(Empty), us)
Within(f, r) == f[1] \div 100 + MulDivPos((f[2] - f[1]) \div 100, r, Million)    \* position inside a step of a cumulated distribution

Results(o) ==
  LET a    == o.A - o.npre                    \* the nucleus that fissions
      n    == Len(o.pairs)
      half == (a + 1) \div 2
      Band(p) == 2 * Min2(Bands, (p[7] - half) \div 8 + 1) - (p[2] % 2)      \* odd bands: odd light masses
      TXE(p) == p[4] + p[8]
      sn   == IF o.sf THEN 0 ELSE o.me[2] + 8071 - o.me[1]
      Eff(p) == IF o.npre = 0 THEN o.E ELSE TXE(p) + p[3] \div 10 - (o.me[1] - p[12] - p[13]) - sn
      Grain(p) == IF o.npre = 0 THEN o.E ELSE ((Eff(p) + 125 + 100000) \div 250 - 400) * 250
      Es   == {Grain(o.pairs[k]) : k \in 1..n}
      Odd(p) == p[7] > a - Low \/ p[7] < half    \* no mass there is
      want(l) == l \in ToSet(o.laws)
      \* masses and kinetic energies; parameters of the nucleus itself, else those of the first one, shifted
      ya   == IF Has(o.ya, a) THEN Row(o.ya, a).p ELSE Row(o.ya, o.A).p
      tk   == IF Has(o.tk, a) THEN Row(o.tk, a).p ELSE Row(o.tk, o.A).p
      Mean(e) == IF Has(o.tk, a) THEN MeanTKE(tk, e) ELSE Viola(o.Z, a) - e \div 4
      Y    == TLCEval([e \in Es |-> MassLaw(ya, a, IF Has(o.ya, a) THEN 0 ELSE a - o.A, e)])
      Far(p) == IF Odd(p) THEN TRUE ELSE Y[Grain(p)][p[7]] + Y[Grain(p)][p[2]] = 0
      HM   == TLCEval([e \in Es |-> HeavyMasses(Y[e], a)])
      KL   == TLCEval([e \in Es |-> KineticLaw(tk, Mean(e), Y[e], a)])
      mass == [k \in 1..n |-> LET p == o.pairs[k] IN << IF Far(p) THEN 9999 ELSE Within(HM[Grain(p)][p[7] - half + 1], p[14]), Band(p) >>]
      tke  == [k \in 1..n |-> LET p == o.pairs[k] IN << IF Far(p) THEN 9999 ELSE KineticAt(KL[Grain(p)][p[7] - half + 1], p[3], 10 * (o.me[1] - p[12] - p[13] + sn + Eff(p))), Band(p) >>]
      \* spins
      alpha == IF Has(o.al, a) THEN Row(o.al, a).p ELSE IF o.sf THEN << 130000, 0 >> ELSE << 150000, 7100 >>
      BB(p, heavy) == LET A == IF heavy THEN p[7] ELSE p[2]
                          u == o.nuc[IF heavy THEN p[11] ELSE p[10]]
                          T == IF Len(u.temp) = 0 THEN 50000 ELSE At(u.temp, IF heavy THEN p[8] ELSE p[4])
                      IN  ((B2(A, u.beta, Alpha(alpha, Eff(p)), T) + 150) \div 300) * 300
      Key(p, heavy) == << BB(p, heavy), (IF heavy THEN p[7] ELSE p[2]) % 2 >>
      keys == TLCEval([k \in 1..n |-> << Key(o.pairs[k], FALSE), Key(o.pairs[k], TRUE) >>])
      SL   == TLCEval([k \in {keys[m][1] : m \in 1..n} \cup {keys[m][2] : m \in 1..n} |-> SpinLaw(k[1], k[2])])
      At50(f, J2, r) == IF J2 \div 2 + 1 > 50 THEN 9999 ELSE Within(f[J2 \div 2 + 1], r)
      spin(h) == [k \in 1..n |-> LET p == o.pairs[k] IN << At50(SL[keys[k][h]], p[IF h = 2 THEN 9 ELSE 5], p[14 + h]), Band(p) >>]
      sl   == TLCEval(spin(1))          sh == TLCEval(spin(2))
      both == [k \in 1..n |-> << 500 * (Min2(3, sl[k][1] \div 2500) * 4 + Min2(3, sh[k][1] \div 2500)), sl[k][2] >>]
      \* charges, in their order; even ones first; those with an even number of neutrons first
      P    == Wahl(o.Z, o.A, o.PE)
      B    == TLCEval(Bounds(P, o.Z, o.A))
      As   == {o.pairs[k][2] : k \in 1..n}
      CL   == TLCEval([A \in As \cup {a - x : x \in As} |-> ChargeLaw(P, B, o.Z, o.A, A)])
      Cum(A, lo, hi, ok(_)) == LET RECURSIVE G(_)
                                   G(z) == IF z > hi THEN 0 ELSE (IF ok(z) THEN LightCharge(CL[A], CL[a - A], o.Z, z) ELSE 0) + G(z + 1)
                               IN  G(lo)
      lowz == o.Z \div 2 - 26
      topz == o.Z \div 2 + 12
      Place(A, z, rank(_)) == LET m == Cum(A, lowz, topz, LAMBDA x : rank(x) < rank(z)) + Cum(A, lowz, z - 1, LAMBDA x : rank(x) = rank(z))
                              IN  << m, m + LightCharge(CL[A], CL[a - A], o.Z, z) >>
      ZA   == {<< o.pairs[k][1], o.pairs[k][2] >> : k \in 1..n}
      C0   == TLCEval([q \in ZA |-> Place(q[2], q[1], LAMBDA x : 0)])
      C1   == TLCEval([q \in ZA |-> Place(q[2], q[1], LAMBDA x : x % 2)])
      C2   == TLCEval([q \in ZA |-> Place(q[2], q[1], LAMBDA x : (q[2] - x) % 2)])
      chg(C) == [k \in 1..n |-> LET p == o.pairs[k] IN << Within(C[<< p[1], p[2] >>], p[17]), Band(p) >>]
      \* shares
      ldp(x) == LET u == o.nuc[x] IN IF Len(u.ldp) = 0 THEN [y \in 1..32 |-> 50000] ELSE u.ldp
      Ratio(A) == IF A < o.R.lo \/ A - o.R.lo + 1 > Len(o.R.v) THEN o.R.other ELSE o.R.v[A - o.R.lo + 1]
      unfair == IF want("share") THEN {k \in 1..n : LET p == o.pairs[k] IN ~Shared(ldp(p[10]), ldp(p[11]), Ratio(p[7]), p[4], p[8])} ELSE {}
  IN  [unfair |-> unfair, n |-> n,
       mass |-> IF want("mass") THEN << Hist(mass) >> ELSE << >>,
       tke |-> IF want("tke") THEN << Hist(tke) >> ELSE << >>,
       spin |-> IF want("spin") THEN << Hist(sl), Hist(sh), Hist(both) >> ELSE << >>,
       charge |-> IF want("charge") THEN << Hist(chg(C0)), Hist(chg(C1)), Hist(chg(C2)) >> ELSE << >>]
Next == PrintT(ToJson([i |-> i, r |-> Results(D[i])])) /\ UNCHANGED i
Spec == Init /\ [][Next]_i
=============================================================================
