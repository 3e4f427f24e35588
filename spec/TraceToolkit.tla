---------------------------- MODULE TraceToolkit ----------------------------
(* CGMFtk's observables against their definitions (Toolkit), on the events of the file.
   data.json: << [lines, ages, exact, ask, obs] >> with
   ask = [th, times, win, dtimes, gates, az, gn, gg, gt, gtd]: the thresholds (1e-3 MeV), times, time
   window, gates and isotope that were asked for, and the published grids.
   exact: values were chosen such that binary rounding cannot matter.            *)
EXTENDS Toolkit, TLC, Json

D == JsonDeserialize("data.json")
N == Len(D)
VARIABLES f, i, es, w      \* w: the groupings, computed once
vars == << f, i, es, w >>
F == D[f]
O == F.obs
Q == F.ask

Init == f \in 1..N /\ i = 1 /\ es = << >> /\ w = << >>
Read == /\ i <= Len(F.lines)
        /\ LET r == REvent(F.lines, i, F.ages) IN es' = Append(es, r.e) /\ i' = r.next
        /\ UNCHANGED << f, w >>

(* ---- comparison *)
Has(k) == k \in DOMAIN O /\ O[k].ok
NearS(a, b, t) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Near(a[j], b[j], t)
NearSS(a, b, t) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : NearS(a[j], b[j], t)
NearP(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j][1] = b[j][1] /\ Near(a[j][2], b[j][2], 2)
One(k, x) == Has(k) /\ NearS(O[k].v, << x >>, 2)
(* mean of a list that may be empty (nothing is claimed then) *)
MeanIs(k, s) == s = << >> \/ One(k, MeanOf(s))
Same(k, x) == Has(k) /\ O[k].v = x
List(k, s) == Has(k) /\ NearS(O[k].v, s, 2)
Th(k, X(_), Cmp(_, _)) == Has(k) /\ Len(O[k].v) = Len(Q.th) /\ \A j \in 1..Len(Q.th) : Cmp(O[k].v[j], X(Q.th[j]))

(* ---- the events *)
Group == /\ i > Len(F.lines) /\ w = << >>
         /\ w' = LET fs == Frags(es) IN [fr |-> fs, ph |-> Photons(fs), ne |-> Energies(Neutrons(fs)), pe |-> Energies(Pre(es)), li |-> Lights(es), he |-> Heavies(es),
                                         mean |-> [n |-> << Energies(Neutrons(fs)), Energies(Neutrons(Lights(es))), Energies(Neutrons(Heavies(es))) >>,
                                                   c |-> << Energies(CmNeutrons(fs)), Energies(CmNeutrons(Lights(es))), Energies(CmNeutrons(Heavies(es))) >>,
                                                   g |-> << Energies(Photons(fs)), Energies(Photons(Lights(es))), Energies(Photons(Heavies(es))) >>]]
         /\ UNCHANGED << f, i, es >>
n == Len(es)
fr == w.fr
Ne == w.ne
Pe == w.pe
Milli(xs) == Map(xs, LAMBDA x : 1000 * x)
Nu(x) == Len(x.n)
Ng(x) == Len(x.g)
NgAbove(x, th) == Len(Above(x.g, th))
nTh(e, th) == Len(Above(e.L.n, th)) + Len(Above(e.H.n, th)) + Len(Above(e.pre, th))
gTh(e, th) == NgAbove(e.L, th) + NgAbove(e.H, th)
Until(xs, t) == SelectSeq(xs, LAMBDA x : TLeq(AgeTime(x[5]), t))
Before(xs, t) == SelectSeq(xs, LAMBDA x : ~TLeq(t, AgeTime(x[5])))
Shares(s) == LET d == Distribution(s) IN Map(d, LAMBDA k : Share(k, Len(s)))
Ph == w.ph
Timed(th, m) == Map(Q.times, LAMBDA t : Mean(1000 * Len(Until(Above(Ph, th), t)), m))
DefaultTimes(k, m) == Has(k) /\ Len(O[k].v) = Len(Q.dtimes) /\ \A j \in 1..Len(Q.dtimes) :
                      \/ Near(O[k].v[j], Mean(1000 * Len(Until(Ph, Q.dtimes[j])), m), 2)
                      \/ Near(O[k].v[j], Mean(1000 * Len(Before(Ph, Q.dtimes[j])), m), 2)
(* every bin, and at most one empty one beyond the last event *)
Bins(k, ps) == LET x == ByTKE(es, TLCEval(ps))
                   c == O[k].v
               IN  /\ Has(k) /\ Len(c) \in {Len(x), Len(x) + 1} /\ NearP(SubSeq(c, 1, Len(x)), x)
                   /\ (Len(c) > Len(x) => c[Len(c)][1] = x[Len(x)][1] + 1000 /\ c[Len(c)][2] = 0)
Clean == F.exact \/ LET ts == Map(es, TKE) IN Cardinality({j \in 1..n : (ts[j] - SeqMin(ts)) % 1000 = 0}) <= 1
(* spectra *)
Spectrum(c, xs, edges, norm(_, _)) ==
  LET v == TLCEval(xs)
      h == Histogram(v, edges)
      tot == TLCEval(Sum(h))
  IN  OnEnds(v, edges) \/ tot = 0 \/ NearS(c, Map(h, LAMBDA k : norm(k, tot)), 2)
PerNeutron(k, tot) == Share(k, tot)
PerFission(k, tot) == MulDiv(k * Len(Ph), 1000000, tot * n)
NSpec(c, th) == Spectrum(c, Energies(Above(Neutrons(fr), th)) \o Energies(Above(Pre(es), th)), Q.gn, PerNeutron)
GSpec(c, th) == Spectrum(c, Energies(Above(Ph, th)), Q.gg, PerFission)
GSpecW(c, th) == Spectrum(c, Energies(SelectSeq(Above(Ph, th), LAMBDA x : Within(x, Q.win[1], Q.win[2]))), Q.gg, PerFission)
(* angles *)
Tol == IF F.exact THEN 3 ELSE 400
Zs(xs, th) == Map(Above(xs, th), LAMBDA x : 1000 * x[3])
Three(c, a, l, h, t) == Len(c) = 3 /\ NearS(c[1], Sorted(a), t) /\ NearS(c[2], Sorted(l), t) /\ NearS(c[3], Sorted(h), t)
NAng(c, L(_), pre, th) == LET l == Zs(All(w.li, L), th)
                              h == Zs(All(w.he, L), th)
                          IN  Three(c, l \o h \o Zs(pre, th), l, h, 2)
Lab(x) == x.n
Cm(x) == x.c
ToFragment(xs, p, th) == Map(Above(xs, th), LAMBDA x : CosTo(x, p))
NF(c, P(_), pre, th) == LET l == Flat(Map(es, LAMBDA e : ToFragment(e.L.n, P(e.L), th)))
                            h == Flat(Map(es, LAMBDA e : ToFragment(e.H.n, P(e.L), th)))
                            q == IF pre THEN Flat(Map(es, LAMBDA e : ToFragment(e.pre, P(e.L), th))) ELSE << >>
                        IN  Three(c, l \o h \o q, l, h, Tol)
NN(k, L(_)) == LET l == Flat(Map(w.li, LAMBDA x : PairCos(L(x))))
                   h == Flat(Map(w.he, LAMBDA x : PairCos(L(x))))
               IN  Has(k) /\ Three(<< O[k].v[3], O[k].v[1], O[k].v[2] >>, l \o h, l, h, 2)
(* gates: is there a photon within the resolution of the energy *)
Gate(x, g) == \E j \in 1..Len(x.g) : Abs(x.g[j][4] - g[1]) <= g[2]
OnGate(g) == ~F.exact /\ \E j \in 1..Len(Ph) : Abs(Ph[j][4] - g[1]) = g[2]
Gated(gs, post) == Map(SelectSeq(fr, LAMBDA x : \A j \in 1..Len(gs) : Gate(x, gs[j])), LAMBDA x : << x.Z, x.A - (IF post THEN Nu(x) ELSE 0) >>)
Gates(k, post) == Has(k) /\ Len(O[k].v) = Len(Q.gates) /\ \A j \in 1..Len(Q.gates) : OnGate(Q.gates[j]) \/ O[k].v[j] = Gated(<< Q.gates[j] >>, post)
(* time histogram: edges rounded down, never a six-digit number *)
After(t, x) == ~TLeq(AgeTime(x[5]), t)
Hist(xs, g) == TLCEval([j \in 1..Len(g) - 1 |-> LET lo == g[j]
                                                  hi == g[j + 1]
                                              IN  Count(xs, LAMBDA x : After(lo, x) /\ TLeq(AgeTime(x[5]), hi))])
TimeHist(xs) == Hist(xs, Q.gt)
Isotope(x) == x.A - Nu(x) = Q.az[1] /\ x.Z = Q.az[2]
Iso(t) == LET s == SelectSeq(fr, Isotope)
              k == Count(s, LAMBDA x : \E j \in 1..Len(x.g) : TLeq(t, AgeTime(x.g[j][5])))
          IN  << Share(k, Len(s)), Share(Len(s) - k, Len(s)) >>
(* summary table: cells with 2 or 3 digits, nothing is claimed for the mean of nothing *)
Cell(c, s, t) == s = << >> \/ Near(c, MeanOf(s), t)
Row(r, cols, t) == Len(r) = Len(cols) /\ \A j \in 1..Len(r) : Cell(r[j], cols[j], t)
By(Qf(_)) == << Map(fr, Qf), Map(w.li, Qf), Map(w.he, Qf) >>
ByEvent(Qe(_), Qf(_)) == << Map(es, Qe), Map(w.li, Qf), Map(w.he, Qf) >>
PreOrZero == IF Pe = << >> THEN << 0 >> ELSE Pe
Table == LET T == O["table"].v
             c2 == 5002
             c3 == 502
         IN  /\ Has("table") /\ Len(T) = 11
             /\ Row(T[1], By(LAMBDA x : 1000 * x.A), c2)
             /\ Row(T[2], By(LAMBDA x : 1000 * x.Z), c2)
             /\ Row(T[3], ByEvent(LAMBDA e : e.L.U + e.H.U, LAMBDA x : x.U), c2)
             /\ Row(T[4], ByEvent(TKE, LAMBDA x : x.KE), c2)
             /\ Row(T[5], By(LAMBDA x : 500 * x.J), c2)
             /\ Row(T[6], By(LAMBDA x : 1000 * x.P), c2)
             /\ Row(T[7], ByEvent(LAMBDA e : 1000 * NuTot(e), LAMBDA x : 1000 * Nu(x)) \o << Map(es, LAMBDA e : 1000 * Len(e.pre)), Map(es, LAMBDA e : 1000 * (NuTot(e) + Len(e.pre))) >>, c3)
             /\ Row(T[8], w.mean.c, c3)
             /\ Row(T[9], w.mean.n \o << PreOrZero, Ne \o Pe >>, c3)
             /\ Row(T[10], ByEvent(LAMBDA e : 1000 * NugTot(e), LAMBDA x : 1000 * Ng(x)), c2)
             /\ Row(T[11], w.mean.g, c2)

Verdicts == [
  nubar |-> MeanIs("nubar", Map(fr, LAMBDA x : 1000 * Nu(x))),
  nubartot |-> MeanIs("nubartot", Map(es, LAMBDA e : 1000 * (NuTot(e) + Len(e.pre)))),
  preFissionNubar |-> MeanIs("preFissionNubar", Map(es, LAMBDA e : 1000 * Len(e.pre))),
  meanNeutronElab |-> MeanIs("meanNeutronElab", Ne \o Pe),
  meanNeutronElabLF |-> MeanIs("meanNeutronElabLF", w.mean.n[2]), meanNeutronElabHF |-> MeanIs("meanNeutronElabHF", w.mean.n[3]),
  meanNeutronElabFragments |-> MeanIs("meanNeutronElabFragments", Ne),
  meanNeutronEcmFragments |-> MeanIs("meanNeutronEcmFragments", w.mean.c[1]),
  meanNeutronEcmLF |-> MeanIs("meanNeutronEcmLF", w.mean.c[2]), meanNeutronEcmHF |-> MeanIs("meanNeutronEcmHF", w.mean.c[3]),
  meanPreFissionNeutronElab |-> MeanIs("meanPreFissionNeutronElab", PreOrZero),
  meanGammaElab |-> MeanIs("meanGammaElab", w.mean.g[1]), meanGammaElabLF |-> MeanIs("meanGammaElabLF", w.mean.g[2]), meanGammaElabHF |-> MeanIs("meanGammaElabHF", w.mean.g[3]),
  nubarg |-> MeanIs("nubarg", Map(fr, LAMBDA x : 1000 * Ng(x))), nubargtot |-> MeanIs("nubargtot", Map(es, LAMBDA e : 1000 * NugTot(e))),
  nubargTh |-> Th("nubargTh", LAMBDA t : MeanOf(Map(fr, LAMBDA x : 1000 * NgAbove(x, t))), LAMBDA a, b : Near(a, b, 2)),
  nubargtotTh |-> Th("nubargtotTh", LAMBDA t : MeanOf(Map(es, LAMBDA e : 1000 * gTh(e, t))), LAMBDA a, b : Near(a, b, 2)),
  nubargW |-> List("nubargW", Timed(0, 2 * n)), nubargL |-> List("nubargL", Timed(0, 2 * n)),
  nubargtotW |-> List("nubargtotW", Timed(0, n)), nubargtotL |-> List("nubargtotL", Timed(0, n)),
  nubargWTh |-> Th("nubargWTh", LAMBDA t : Timed(t, 2 * n), LAMBDA a, b : NearS(a, b, 2)),
  nubargtotWTh |-> Th("nubargtotWTh", LAMBDA t : Timed(t, n), LAMBDA a, b : NearS(a, b, 2)),
  nubargD |-> DefaultTimes("nubargD", 2 * n), nubargtotD |-> DefaultTimes("nubargtotD", n),
  nuCut |-> Th("nuCut", LAMBDA t : Map(fr, LAMBDA x : Len(StrictlyAbove(x.n, t))), LAMBDA a, b : a = b),
  nugCut |-> Th("nugCut", LAMBDA t : Map(fr, LAMBDA x : Len(StrictlyAbove(x.g, t))), LAMBDA a, b : a = b),
  Pnu |-> List("Pnu", Shares(Map(es, LAMBDA e : NuTot(e) + Len(e.pre)))), Pnug |-> List("Pnug", Shares(Map(es, NugTot))),
  PnuTh |-> Th("PnuTh", LAMBDA t : Shares(Map(es, LAMBDA e : nTh(e, t))), LAMBDA a, b : NearS(a, b, 2)),
  PnugTh |-> Th("PnugTh", LAMBDA t : Shares(Map(es, LAMBDA e : gTh(e, t))), LAMBDA a, b : NearS(a, b, 2)),
  nubarA |-> Has("nubarA") /\ NearP(O.nubarA.v, ByMass(es, LAMBDA x : 1000 * Nu(x))),
  nubargA |-> Has("nubargA") /\ NearP(O.nubargA.v, ByMass(es, LAMBDA x : 1000 * Ng(x))),
  nubargATh |-> Th("nubargATh", LAMBDA t : ByMass(es, LAMBDA x : 1000 * NgAbove(x, t)), NearP),
  UA |-> Has("UA") /\ NearP(O.UA.v, ByMass(es, LAMBDA x : x.U)), spinA |-> Has("spinA") /\ NearP(O.spinA.v, ByMass(es, LAMBDA x : 500 * x.J)),
  TKEA |-> Has("TKEA") /\ NearP(O.TKEA.v, TKEofMass(es)),
  nubarTKE |-> Clean => Bins("nubarTKE", PairsOfEvents(es, LAMBDA e : 1000 * NuTot(e))),
  nubargTKE |-> Clean => Bins("nubargTKE", PairsOfEvents(es, LAMBDA e : 1000 * NugTot(e))),
  UTKE |-> Clean => Bins("UTKE", PairsOfFrags(es, LAMBDA x : x.U)), spinTKE |-> Clean => Bins("spinTKE", PairsOfFrags(es, LAMBDA x : 500 * x.J)),
  pfns |-> Has("pfns") /\ NSpec(O.pfns.v, 0), pfnsTh |-> Has("pfnsTh") /\ \A j \in 1..Len(Q.th) : NSpec(O.pfnsTh.v[j], Q.th[j]),
  pfgs |-> Has("pfgs") /\ GSpec(O.pfgs.v, 0), pfgsTh |-> Has("pfgsTh") /\ \A j \in 1..Len(Q.th) : GSpec(O.pfgsTh.v[j], Q.th[j]),
  pfgsW |-> Has("pfgsW") /\ GSpecW(O.pfgsW.v, 0), pfgsWTh |-> Has("pfgsWTh") /\ \A j \in 1..Len(Q.th) : GSpecW(O.pfgsWTh.v[j], Q.th[j]),
  FFpost |-> Has("FFpost") /\ NearS(O.FFpost.v, Map(fr, LAMBDA x : CosBeam(x.q)), Tol), FFpost2 |-> Has("FFpost2") /\ O.FFpost2.v = O.FFpost.v,
  FFpre |-> Has("FFpre") /\ NearS(O.FFpre.v, Map(fr, LAMBDA x : CosBeam(x.p)), Tol),
  nang |-> Has("nang") /\ NAng(O.nang.v, Lab, Pre(es), 0), nangNoPre |-> Has("nangNoPre") /\ NAng(O.nangNoPre.v, Lab, << >>, 0),
  nangCm |-> Has("nangCm") /\ NAng(O.nangCm.v, Cm, << >>, 0),
  nangTh |-> Has("nangTh") /\ \A j \in 1..Len(Q.th) : NAng(O.nangTh.v[j], Lab, Pre(es), Q.th[j]),
  nangThCm |-> Has("nangThCm") /\ \A j \in 1..Len(Q.th) : NAng(O.nangThCm.v[j], Cm, << >>, Q.th[j]),
  nF |-> Has("nF") /\ NF(O.nF.v, LAMBDA x : x.q, TRUE, 0), nFNo |-> Has("nFNo") /\ NF(O.nFNo.v, LAMBDA x : x.q, FALSE, 0),
  nFPre |-> Has("nFPre") /\ NF(O.nFPre.v, LAMBDA x : x.p, TRUE, 0),
  nFTh |-> Has("nFTh") /\ \A j \in 1..Len(Q.th) : NF(O.nFTh.v[j], LAMBDA x : x.q, TRUE, Q.th[j]),
  nnLab |-> NN("nnLab", Lab), nnDef |-> NN("nnDef", Lab), nnCm |-> NN("nnCm", Cm),
  gammaSpec |-> Gates("gammaSpec", TRUE), gammaSpecPre |-> Gates("gammaSpecPre", FALSE),
  gammaSpec2 |-> (\E j \in 1..Len(Q.gates) : OnGate(Q.gates[j])) \/ Same("gammaSpec2", Gated(Q.gates, TRUE)),
  gMult |-> Same("gMult", TimeHist(Ph)), gMultTh |-> Th("gMultTh", LAMBDA t : TimeHist(Above(Ph, t)), LAMBDA a, b : a = b),
  gMultAZ |-> Same("gMultAZ", TimeHist(Photons(SelectSeq(fr, Isotope)))),
  iso |-> SelectSeq(fr, Isotope) = << >> \/ (Has("iso") /\ NearSS(O.iso.v, Map(Q.times, Iso), 2)),
  gMultDef |-> Same("gMultDef", Hist(Ph, Q.gtd)),
  stable |-> Has("stable"),       \* asking does not change what is known
  table |-> Table ]
Bad == {k \in DOMAIN Verdicts : ~Verdicts[k]}
Done == w # << >> /\ TLCSet(2, [TLCGet(2) EXCEPT ![f] = Bad]) /\ UNCHANGED vars
Next == Read \/ Group \/ Done
Spec == Init /\ [][Next]_vars
ASSUME TLCSet(2, [k \in 1..N |-> {"not read"}])
Rejected == {k \in 1..N : TLCGet(2)[k] # {}}
Accepted == PrintT(ToJson([rejected |-> [k \in 1..N |-> TLCGet(2)[k]]])) /\ Rejected = {}
=============================================================================
