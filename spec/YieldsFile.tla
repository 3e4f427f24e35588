----------------------------- MODULE YieldsFile -----------------------------
(* The yields file: pairs of scission fragments, light then heavy, without their
   decay. Every pair is a scission of FissionEvent.tla whose pre-fission neutrons
   are not shown: their number follows from the missing nucleons, their energies
   are only bounded. Numbers are printed with 6 significant digits.            *)
EXTENDS FissionEvent

MinSafe(a, b) == IF a < b THEN a ELSE b
RECURSIVE SnSum(_)
SnSum(n) == IF n = 0 THEN 0 ELSE SnComp(comp.Z, comp.A - n + 1) + SnSum(n - 1)
Lost(L, H) == comp.A - L.A - H.A
(* excitation energy left for the fissioning nucleus after n neutrons of no energy *)
Left(n) == comp.exc - SnSum(n)
QPair(L, H) == MassExcess(comp.Z, L.A + H.A) - MassExcess(L.Z, L.A) - MassExcess(H.Z, H.A)

YNucleons(L, H) ==
  /\ Lost(L, H) \in (IF comp.sf THEN {0} ELSE 0..3)
  /\ L.Z + H.Z = comp.Z /\ L.A <= H.A
  /\ 0 < L.Z /\ L.Z < L.A /\ 0 < H.Z /\ H.Z < H.A
  /\ Known(L.Z, L.A) /\ Known(H.Z, H.A)
YEnergy(L, H) ==
  LET n == Lost(L, H)
      exc == L.KE + H.KE + L.U + H.U - QPair(L, H)        \* excitation energy the pair accounts for
  IN  IF n = 0 THEN Abs(exc - comp.exc) <= 4 * KeV
      ELSE exc <= Left(n) + 4 * KeV /\ exc >= -4 * KeV
YMomentum(L, H) ==
  LET n == Lost(L, H)
      ml == Mass4(L.Z, L.A)
      mh == Mass4(H.Z, H.A)
      tke == L.KE + H.KE
      d == VSub(VAdd(L.p, H.p), comp.p)
  IN  /\ IF n = 0 THEN VNear(d, VZero, 160)
         ELSE \* n neutrons of the compound nucleus' frame carry at most what is left, plus what they co-move with
              KEof(VSub(VZero, d), Mn4) <= n * (Left(n) + 300 * KeV)
      /\ Abs(MulDiv(L.KE, ml + mh, 1000000) - MulDiv(tke, mh, 1000000)) <= 700
      /\ Abs(KEof(L.p, ml) + KEof(H.p, mh) - tke) <= 18 * KeV + n * 700 * KeV
YSpin(F) == /\ F.P \in {-1, 1} /\ F.J2 >= 0 /\ F.J2 < 100 /\ F.J2 % 2 = F.A % 2
            /\ F.U >= 0 /\ F.KE > 0

(* laws: which of them are looked at, by the names of FissionEvent.tla *)
Pair(L, H, laws) ==
  /\ ph = "compound"
  /\ "nucleons" \in laws => YNucleons(L, H)
  /\ "domain" \in laws => YSpin(L) /\ YSpin(H)
  /\ "escission" \in laws => YNucleons(L, H) /\ YEnergy(L, H)
  /\ "pscission" \in laws => YNucleons(L, H) /\ YMomentum(L, H)
=============================================================================
