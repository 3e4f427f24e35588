------------------------------ MODULE Toolkit ------------------------------
(* What the analysis toolkit must answer for a list of events (Reader's vocabulary):
   the accessors, and the definitions of its observables.
   Means are integers in 1/1000 of the unit of the summed values, angles in 1e-6. *)
EXTENDS Reader, Fixed, FiniteSets, SequencesExt, TLC

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
(* evaluated at once (TLC would otherwise evaluate an element at every use) *)
Map(s, F(_)) == LET v == TLCEval(s) IN TLCEval([i \in 1..Len(v) |-> F(v[i])])
Count(s, P(_)) == Len(SelectSeq(s, P))
(* 1000 * total / n; off by less than one *)
Mean(total, n) == IF total >= 0 THEN (total \div n) * 1000 + ((total % n) * 1000) \div n
                  ELSE -(((-total) \div n) * 1000 + (((-total) % n) * 1000) \div n)
MeanOf(s) == Mean(Sum(s), Len(s))
Near(a, b, t) == a > -1900000000 /\ Abs(a - b) <= t

(* ---- the two groupings *)
Frags(es) == Flat([i \in 1..Len(es) |-> << es[i].L, es[i].H >>])
Lights(es) == Map(es, LAMBDA e : e.L)
Heavies(es) == Map(es, LAMBDA e : e.H)
Energies(xs) == Map(xs, LAMBDA x : x[4])
Dirs(xs) == Map(xs, LAMBDA x : SubSeq(x, 1, 3))
Ages(xs) == Map(xs, LAMBDA x : x[5])
All(fs, Part(_)) == Flat(Map(fs, Part))
Neutrons(fs) == All(fs, LAMBDA F : F.n)
CmNeutrons(fs) == All(fs, LAMBDA F : F.c)
Photons(fs) == All(fs, LAMBDA F : F.g)
Pre(es) == Flat(Map(es, LAMBDA e : e.pre))
NuTot(e) == Len(e.L.n) + Len(e.H.n)
NugTot(e) == Len(e.L.g) + Len(e.H.g)
TKE(e) == e.L.KE + e.H.KE
Above(xs, th) == SelectSeq(xs, LAMBDA x : x[4] >= th)
StrictlyAbove(xs, th) == SelectSeq(xs, LAMBDA x : x[4] > th)

(* ---- ages: tokens << 0, 0 >> or << -1, mantissa, exponent >>; window bounds << mantissa (8 digits), exponent >> *)
AgeTime(t) == IF t[1] = 0 THEN TZero ELSE << t[2] * 100, t[3] >>
Within(x, lo, hi) == TLeq(lo, AgeTime(x[5])) /\ TLeq(AgeTime(x[5]), hi)

(* ---- distributions: sequence of counts of the values 0 .. max *)
SeqMax(s) == FoldLeft(LAMBDA a, b : Max2(a, b), s[1], s)
SeqMin(s) == FoldLeft(LAMBDA a, b : Min2(a, b), s[1], s)
Distribution(s) == TLCEval([k \in 1..SeqMax(s) + 1 |-> Count(s, LAMBDA x : x = k - 1)])
Share(k, n) == Mean(1000 * k, n)                      \* k/n in 1e-6

(* ---- averages in groups: << key, 1000 * mean, or 0 if the group is empty >> *)
GroupMean(ps, P(_)) == LET r == SelectSeq(ps, P) IN IF r = << >> THEN 0 ELSE MeanOf(Map(r, LAMBDA x : x[2]))
ByMass(es, Q(_)) == LET ps == Map(Frags(es), LAMBDA F : << F.A, Q(F) >>)
                        As == Map(ps, LAMBDA x : x[1])
                        lo == TLCEval(SeqMin(As))
                    IN  TLCEval([i \in 1..SeqMax(As) - lo + 1 |-> << lo + i - 1, GroupMean(ps, LAMBDA x : x[1] = lo + i - 1) >>])
TKEofMass(es) == LET ps == Flat(Map(es, LAMBDA e : << << e.L.A, TKE(e) >>, << e.H.A, TKE(e) >> >>))
                     As == Map(ps, LAMBDA x : x[1])
                     lo == TLCEval(SeqMin(As))
                 IN  TLCEval([i \in 1..SeqMax(As) - lo + 1 |-> << lo + i - 1, GroupMean(ps, LAMBDA x : x[1] = lo + i - 1) >>])
(* ps: << TKE, value >>; bins of 1 MeV from the smallest TKE of the events on *)
ByTKE(es, ps) == LET ts == Map(es, TKE)
                     lo == TLCEval(SeqMin(ts))
                     nb == (SeqMax(ts) - lo) \div 1000 + 1
                 IN  TLCEval([i \in 1..nb |-> << lo + 1000 * (i - 1), GroupMean(ps, LAMBDA x : lo + 1000 * (i - 1) <= x[1] /\ x[1] < lo + 1000 * i) >>])
PairsOfEvents(es, Q(_)) == Map(es, LAMBDA e : << TKE(e), Q(e) >>)
PairsOfFrags(es, Q(_)) == Flat(Map(es, LAMBDA e : << << TKE(e), Q(e.L) >>, << TKE(e), Q(e.H) >> >>))

(* ---- spectra: counts of energies between consecutive edges (1e-6 MeV, rounded down; interior edges are irrational) *)
Histogram(xs, edges) == TLCEval([i \in 1..Len(edges) - 1 |-> LET lo == edges[i]
                                                                hi == edges[i + 1]
                                                            IN  Count(xs, LAMBDA e : lo < 1000 * e /\ 1000 * e <= hi)])
OnEnds(xs, edges) == \E i \in 1..Len(xs) : 1000 * xs[i] = edges[1] \/ 1000 * xs[i] = edges[Len(edges)]

(* ---- angles *)
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m)
Rnd(x) == IF x >= 0 THEN (x + 500) \div 1000 ELSE -((500 - x) \div 1000)
(* momenta in MeV/c *)
PMev(p) == << Rnd(p[1]), Rnd(p[2]), Rnd(p[3]) >>
Norm(v) == Isqrt(v[1] * v[1] + v[2] * v[2] + v[3] * v[3], 0, 46340)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
CosBeam(p) == LET v == PMev(p) IN MulDiv(v[3], 1000000, Norm(v))
CosTo(d, p) == LET v == PMev(p) IN MulDiv(Dot(d, v), 1000, Norm(v))
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
PairCos(xs) == TLCEval(Flat([j \in 1..Len(xs) |-> [k \in 1..Len(xs) - j |-> Dot(xs[j], xs[j + k])]]))
=============================================================================
