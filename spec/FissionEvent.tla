---------------------------- MODULE FissionEvent ----------------------------
(* One fission event, as the state machine the code runs through:

     Capture -> EmitPre* -> Scission -> for each fragment
        EmitN*  ( StartLow | EnterLevel | EmitG* EmitGTo )  ( DiscG | DiscIC )*  Settle
     -> done

   Each action carries the observable data of the step (what the public getters
   report) and is enabled only if the laws of the step hold; the state carries
   what the laws need (nucleons, excitation energy, momentum, level, age).
   The same actions are explored exhaustively on toy nuclei (MCEvent.tla), where
   the local laws are shown to imply the global guarantees, and are bound to the
   recorded events of the real code (TraceEvent.tla).

   Judge is the set of laws a run decides; a law that is not judged is assumed,
   i.e. the recorded value is taken as is.                                    *)
EXTENDS Levels

CONSTANTS
  MassExcess(_, _),    \* (Z, A) -> eV
  Mass4(_, _),         \* (Z, A) -> 1/4 MeV
  Known(_, _),         \* (Z, A) -> BOOLEAN, is the nuclide in the mass table
  Scheme(_, _),        \* (Z, A) -> raw level scheme
  Judge                \* subset of Laws

Laws == {"nucleons", "escission", "pscission", "decay", "nkin", "gkin", "domain", "age"}

Light == 1
Heavy == 2
Frag == {Light, Heavy}

Mn4      == 3758            \* 4 * 939.565 MeV (kinetic energies of pre-fission neutrons only)
MnExcess == 8071317         \* neutron mass excess used for the compound nucleus (masses.dat)
MnCasc   == 8071431         \* and the one used in the fragment cascade
KeV      == 1000

VARIABLES
  ph,      \* "idle", "compound", "fragments", "done"
  comp,    \* compound: [Z, A, A0, exc, p, npre, win, sf]
  fr       \* fragments: function Frag -> record

vars == << ph, comp, fr >>

On(law) == law \in Judge
Law(law, holds) == On(law) => holds

NoComp == [Z |-> 0, A |-> 0, A0 |-> 0, exc |-> 0, p |-> VZero, npre |-> 0, win |-> TZero, sf |-> TRUE]
NoFrag == [A |-> 0, Z |-> 0, A0 |-> 0, U |-> 0, U0 |-> 0, p |-> VZero, p0 |-> VZero, nn |-> 0, ng |-> 0, st |-> "none",
           lev |-> 0, age |-> TZero, slack |-> TZero, leak |-> 0, tol |-> 0]

Init == /\ ph = "idle" /\ comp = NoComp /\ fr = [f \in Frag |-> NoFrag]

(* neutron separation energies *)
SnComp(Z, A) == MassExcess(Z, A - 1) + MnExcess - MassExcess(Z, A)
SnCasc(Z, A) == MassExcess(Z, A - 1) + MnCasc - MassExcess(Z, A)

-----------------------------------------------------------------------------
(* The compound nucleus: target (Z, A), incident energy E (0: spontaneous
   fission), beam momentum along z, coincidence window win (0: infinite).    *)
Capture(Z, A, E, beam, win) ==
  /\ ph = "idle"
  /\ LET sf == E = 0
         a  == IF sf THEN A ELSE A + 1
     IN  /\ comp' = [Z |-> Z, A |-> a, A0 |-> a, exc |-> IF sf THEN 0 ELSE E + SnComp(Z, a),
                     p |-> beam, npre |-> 0, win |-> win, sf |-> sf]
         /\ Law("pscission", sf <=> beam = VZero)
  /\ ph' = "compound"
  /\ UNCHANGED fr

(* centre-of-mass energy of a pre-fission neutron with lab momentum p *)
PreEcm(p) == KEof(VSub(p, CoMoving(comp.p, Mass4(comp.Z, comp.A))), Mn4)

EmitPre(e, dir, p) ==
  /\ ph = "compound"
  /\ Law("nucleons", ~comp.sf)
  /\ Law("domain", e > 0 /\ Unit(dir) /\ comp.npre < 3)
  /\ LET ecm == PreEcm(p)
         exc == comp.exc - ecm - SnComp(comp.Z, comp.A)
     IN  /\ Law("escission", exc > -50 * KeV * (comp.npre + 1))
         /\ comp' = [comp EXCEPT !.A = @ - 1, !.exc = exc, !.p = VSub(@, p), !.npre = @ + 1]
  /\ UNCHANGED << ph, fr >>

(* Scission into L and H: [A, Z, U, J2, P, KE, p, dir] *)
QValue(L, H) == MassExcess(comp.Z, comp.A) - MassExcess(L.Z, L.A) - MassExcess(H.Z, H.A)

NucleonLaw(L, H, npre) ==
  /\ L.A + H.A = comp.A /\ L.Z + H.Z = comp.Z
  /\ L.A <= H.A
  /\ 0 < L.Z /\ L.Z < L.A /\ 0 < H.Z /\ H.Z < H.A
  /\ npre = comp.npre

EnergyLaw(L, H) ==
  Abs(QValue(L, H) + comp.exc - L.KE - H.KE - L.U - H.U) <= 2 * KeV + comp.npre * 27 * KeV

MomentumLaw(L, H) ==
  LET ml == Mass4(L.Z, L.A)
      mh == Mass4(H.Z, H.A)
      tke == L.KE + H.KE
  IN  /\ VNear(VAdd(L.p, H.p), comp.p, 40)
      /\ Abs(MulDiv(L.KE, ml + mh, 1000000) - MulDiv(tke, mh, 1000000)) <= 250   \* KE_L = TKE M_H/(M_L+M_H), to ~300 eV
      /\ Abs(KEof(L.p, ml) + KEof(H.p, mh) - tke) <= 15 * KeV
      /\ \A F \in {L, H} : /\ Unit(F.dir)
                           /\ F.pabs >= 0
                           /\ Abs(Sq(F.pabs) - Sq3(F.p)) <= Sq3(F.p) \div 100000 + 5
                           /\ VNear(<< MulDiv(F.dir[1], F.pabs, 1000000), MulDiv(F.dir[2], F.pabs, 1000000),
                                       MulDiv(F.dir[3], F.pabs, 1000000) >>, F.p, 200)

SpinLaw(F) ==
  /\ F.P \in {-1, 1}
  /\ F.J2 >= 0 /\ F.J2 < 100 /\ F.J2 % 2 = F.A % 2
  /\ F.U >= 0 /\ F.KE > 0

NewFrag(F) == [A |-> F.A, Z |-> F.Z, A0 |-> F.A, U |-> F.U, U0 |-> F.U, p |-> F.p, p0 |-> F.p, nn |-> 0, ng |-> 0, st |-> "cont",
               lev |-> 0, age |-> TZero, slack |-> TZero, leak |-> 0, tol |-> 60]

Scission(L, H, npre) ==
  /\ ph = "compound"
  /\ Law("nucleons", NucleonLaw(L, H, npre))
  /\ Law("escission", EnergyLaw(L, H))
  /\ Law("pscission", MomentumLaw(L, H))
  /\ Law("domain", SpinLaw(L) /\ SpinLaw(H))
  /\ Law("nucleons", Known(L.Z, L.A) /\ Known(H.Z, H.A))
  /\ fr' = [f \in Frag |-> NewFrag(IF f = Light THEN L ELSE H)]
  /\ ph' = "fragments"
  /\ UNCHANGED comp

-----------------------------------------------------------------------------
(* Fragment decay. Neutrons are listed before photons in the observables, so
   the energy of all neutrons is taken first (their order with respect to
   continuum photons is not observable).                                     *)
Res(f) == Scheme(fr[f].Z, fr[f].A)
Set(f, g) == fr' = [fr EXCEPT ![f] = g] /\ UNCHANGED << ph, comp >>

EmitN(f, ecm, elab, cdir, dir, pcm, plab, timely) ==
  LET F == fr[f] IN
  /\ ph = "fragments" /\ F.st = "cont" /\ F.ng = 0
  /\ Law("domain", ecm > 0 /\ elab > 0 /\ Unit(cdir) /\ Unit(dir) /\ F.nn < 10)
  /\ Law("nkin", VNear(plab, VAdd(pcm, CoMoving(F.p, Mass4(F.Z, F.A))), 15))
  /\ Law("age", timely)
  /\ Law("decay", F.U - ecm - SnCasc(F.Z, F.A) >= -F.tol)
  /\ Law("nucleons", Known(F.Z, F.A - 1))
  /\ Set(f, [F EXCEPT !.A = @ - 1, !.U = @ - ecm - SnCasc(F.Z, F.A), !.p = VSub(@, plab), !.nn = @ + 1])

(* photon energy in the frame of the fragment, from the lab energy *)
Beta(F, pabs) == MulDiv(pabs, 400, Mass4(F.Z, F.A))
Gamma1(b) == LET b2 == MulDiv(b, b, 1000000) IN 1000000 - b2 \div 2 - MulDiv(b2, b2, 1000000) \div 8
EcmOf(F, pabs, elab, u) == LET b == Beta(F, pabs) IN MulDiv(elab, 1000000 - MulDiv(b, u, 1000000), Gamma1(b))
PabsOk(F, pabs) == pabs >= 0 /\ Abs(Sq(pabs) - Sq3(F.p)) <= Sq3(F.p) \div 50000 + 5

EnergyJudged == On("decay") \/ On("gkin") \/ On("age")
GTol(elab) == 12 + elab \div 200000

PhotonOk(f, elab, dir, pabs) ==
  /\ PabsOk(fr[f], pabs)
  /\ Law("domain", elab > 0 /\ Unit(dir) /\ fr[f].ng < 50)
  /\ Law("gkin", Unit(dir) /\ elab > 0)

(* continuum photon: the excitation stays above the discrete levels *)
EmitG(f, elab, dir, pabs, age) ==
  LET F == fr[f]
      e == EcmOf(F, pabs, elab, dir[1])
  IN
  /\ ph = "fragments" /\ F.st = "cont"
  /\ PhotonOk(f, elab, dir, pabs)
  /\ EnergyJudged => F.U - e >= Top(Res(f)) - F.tol - GTol(elab)
  /\ Law("age", age = TZero)
  /\ Set(f, [F EXCEPT !.U = @ - e, !.ng = @ + 1, !.tol = @ + GTol(elab)])

(* photon from the continuum to a discrete level k *)
EmitGTo(f, k, elab, dir, pabs, age) ==
  LET F == fr[f]
      e == EcmOf(F, pabs, elab, dir[1])
  IN
  /\ ph = "fragments" /\ F.st = "cont"
  /\ PhotonOk(f, elab, dir, pabs)
  /\ k \in IF EnergyJudged THEN 1..Len(Res(f)) ELSE {1}
  /\ EnergyJudged => Abs(F.U - e - Res(f)[k].E) <= F.tol + GTol(elab)
  /\ Law("age", age = TZero)
  /\ Set(f, [F EXCEPT !.st = "disc", !.lev = k, !.ng = @ + 1, !.leak = Res(f)[k].E - F.U + e])

(* the last neutron has populated a discrete level k *)
EnterLevel(f, k) ==
  LET F == fr[f] IN
  /\ ph = "fragments" /\ F.st = "cont" /\ F.ng = 0 /\ F.nn > 0
  /\ k \in IF EnergyJudged THEN 1..Len(Res(f)) ELSE {1}
  /\ EnergyJudged => Abs(F.U - Res(f)[k].E) <= F.tol
  /\ Set(f, [F EXCEPT !.st = "disc", !.lev = k, !.leak = Res(f)[k].E - F.U])

(* a fragment born below (or within one energy bin of) its highest level starts
   from the level that is nearest to its excitation energy: the one place where
   the event is not exactly energy conserving (named deviation)              *)
Bin == 50 * KeV
Nearest(s, U) == {k \in 1..Len(s) : \A j \in 1..Len(s) : Abs(U - s[k].E) <= Abs(U - s[j].E) + 2}
StartLow(f, k) ==
  LET F == fr[f] IN
  /\ ph = "fragments" /\ F.st = "cont" /\ F.nn = 0 /\ F.ng = 0
  /\ EnergyJudged => F.U <= Top(Res(f)) + Bin + KeV
  /\ k \in IF EnergyJudged THEN Nearest(Res(f), F.U) ELSE {1}
  /\ Set(f, [F EXCEPT !.st = "disc", !.lev = k, !.leak = Res(f)[k].E - F.U])

(* time spent in level k: nothing unless it has a half-life *)
Delay(f, k) == Res(f)[k].T
Patience == 60     \* half-lives; a longer stay has probability 2^-60
AgeOk(F, lvT, age) ==
  /\ TLeq(F.age, age)
  /\ LET s == TMax(F.slack, lvT) IN
       IF TPos(s) THEN TLeq(age, TMul(TMax(F.age, TMul(s, Patience)), 8)) ELSE age = F.age
  /\ TPos(comp.win) => TLeq(age, comp.win)

(* photon between two discrete levels *)
DiscG(f, t, elab, dir, pabs, age) ==
  LET F == fr[f]
      s == Res(f)
      e == EcmOf(F, pabs, elab, dir[1])
  IN
  /\ ph = "fragments" /\ F.st = "disc" /\ F.lev > 1
  /\ PhotonOk(f, elab, dir, pabs)
  /\ t \in GammaTo(s, F.lev)
  /\ EnergyJudged => Abs(e - (s[F.lev].E - s[t].E)) <= GTol(elab) + 40
  /\ Law("age", AgeOk(F, Delay(f, F.lev), age))
  /\ Set(f, [F EXCEPT !.lev = t, !.ng = @ + 1, !.age = age, !.slack = TZero])

(* internal conversion: nothing is emitted that the observables show *)
DiscIC(f, t) ==
  LET F == fr[f]
      s == Res(f)
  IN
  /\ ph = "fragments" /\ F.st = "disc" /\ F.lev > 1
  /\ t \in ConversionTo(s, F.lev)
  /\ Set(f, [F EXCEPT !.lev = t, !.slack = TMax(@, Delay(f, F.lev))])

(* kinetic energy after neutron emission. The code divides by the mass of the
   fragment before the emission (KNOWN-FINDING KEPOST); both are accepted here
   and the use of the deviation is reported.                                 *)
KEpostExact(f, ke)     == Abs(ke - KEof(fr[f].p, Mass4(fr[f].Z, fr[f].A))) <= 1500
KEpostDeviation(f, ke) == Abs(ke - KEof(fr[f].p, Mass4(fr[f].Z, fr[f].A0))) <= 1500

(* the cascade ends in the ground state, or in a level that outlives the window *)
Outlives(F, T) == /\ TPos(T) /\ TPos(comp.win)
                  /\ TLeq(comp.win, TMul(TMax(F.age, TMul(TMax(F.slack, T), Patience)), 8))
Settle(f, nu, ng, post, kepost) ==
  LET F == fr[f] IN
  /\ ph = "fragments" /\ F.st = "disc"
  /\ EnergyJudged => F.lev = 1 \/ Outlives(F, Delay(f, F.lev))
  /\ Law("nucleons", nu = F.nn /\ ng = F.ng)
  /\ Law("nkin", VNear(post, F.p, 40))
  /\ Law("nkin", KEpostExact(f, kepost) \/ KEpostDeviation(f, kepost))
  /\ Set(f, [F EXCEPT !.st = "end"])

Finish ==
  /\ ph = "fragments" /\ \A f \in Frag : fr[f].st = "end"
  /\ ph' = "done" /\ UNCHANGED << comp, fr >>
=============================================================================
