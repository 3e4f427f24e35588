------------------------------ MODULE MCEvent ------------------------------
(* All events of a toy world (few nuclides, few levels, motion along x),
   explored exhaustively: the laws of the single steps of FissionEvent imply the
   guarantees a user relies on for the whole event - nucleons, mass-energy,
   momentum, times - and every event can be, and is, completed.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Energies, Windows, Shares, Charges, Signs     \* bounds

VARIABLES ph, comp, fr, out     \* out: what has left the system: [n, p, e, e0: initial excitation]
mvars == << ph, comp, fr, out >>

kk == 1000
M4 == 1000000
Zc == 4
Ac == 9                                   \* target mass
TME(Z, A) == (600 * Z * Z + 20 * (A % 2) - 800 * A) * kk + 8071374 * A
TMass4(Z, A) == M4
TKnown(Z, A) == Z > 0 /\ A > Z
T0 == << 0, 0 >>
NS == << 10000000, -9 >>
US == << 10000000, -6 >>
(* three levels, the middle one long-lived; the highest decays by a converted
   transition to it and by a plain one to the ground state                    *)
Excited == << [E |-> 0, J2 |-> 0, P |-> 1, T |-> T0, br |-> << >>],
              [E |-> 100 * kk, J2 |-> 4, P |-> 1, T |-> NS, br |-> << >>],
              [E |-> 300 * kk, J2 |-> 8, P |-> -1, T |-> T0, br |-> << << 0, 1, 0 >>, << 1, 2, 500 >> >>] >>
Bare == << Excited[1] >>
TScheme(Z, A) == IF A % 2 = 0 THEN Excited ELSE Bare

FE == INSTANCE FissionEvent WITH MassExcess <- TME, Mass4 <- TMass4, Known <- TKnown, Scheme <- TScheme,
                                 Judge <- {"nucleons", "escission", "pscission", "decay", "nkin", "gkin", "domain", "age"}

X(p) == << p, 0, 0 >>
Dir(p) == IF p < 0 THEN << -1000000, 0, 0 >> ELSE << 1000000, 0, 0 >>
Side == << 0, 1000000, 0 >>              \* photons perpendicular to the motion: no Doppler shift to first order
NoOut == [n |-> 0, p |-> << 0, 0, 0 >>, e |-> 0, e0 |-> 0]
MInit == FE!Init /\ out = NoOut

KE0 == 1000 * kk                         \* kinetic energy of a fragment: |p| = sqrt(2 M KE)
P0 == 7071068
PN == 137080                             \* |p| of a 100 keV neutron

MCapture == \E E \in Energies, win \in Windows :
              /\ FE!Capture(Zc, Ac, E, IF E = 0 THEN X(0) ELSE X(40000), win)
              /\ out' = [out EXCEPT !.e0 = comp'.exc]
MPre == \E s \in Signs :
          LET p == X(s * PN) IN
          /\ FE!EmitPre(100 * kk, Dir(s), p)
          /\ out' = [out EXCEPT !.n = @ + 1, !.p = FE!VAdd(@, p), !.e = @ + FE!PreEcm(p)]
MSci == \E al \in 1..9, zl \in Charges, ul \in Shares, s \in Signs :
          LET ah == comp.A - al
              zh == comp.Z - zl
              L0 == [A |-> al, Z |-> zl]
              H0 == [A |-> ah, Z |-> zh]
              uh == FE!QValue(L0, H0) + comp.exc - 2 * KE0 - ul
              pc == comp.p[1] \div 2
              mk(a, z, u, p) == [A |-> a, Z |-> z, U |-> u, J2 |-> a % 2, P |-> 1, KE |-> KE0, p |-> X(p),
                                 pabs |-> FE!Abs(p), dir |-> Dir(p)]
          IN  /\ TKnown(zl, al) /\ TKnown(zh, ah)
              /\ FE!Scission(mk(al, zl, ul, pc + s * P0), mk(ah, zh, uh, comp.p[1] - pc - s * P0), comp.npre)
              /\ UNCHANGED out
(* neutron energies: 100 keV, or what populates a level of the residual nucleus *)
NE(f) == LET F == fr[f]
             s == TScheme(F.Z, F.A - 1)
             q == F.U - FE!SnCasc(F.Z, F.A)
         IN  {e \in {100 * kk} : q - e > s[Len(s)].E + kk} \cup {q - s[k].E : k \in 1..Len(s)}
MN(f) == \E s \in Signs : \E e \in NE(f) :
           LET pc == X(s * PN)      \* directions matter here, magnitudes do not
               pl == FE!VAdd(pc, FE!CoMoving(fr[f].p, M4))
           IN  /\ e > 0
               /\ FE!EmitN(f, e, e, Dir(s), Dir(pl[1]), pc, pl, TRUE)
               /\ out' = [out EXCEPT !.n = @ + 1, !.p = FE!VAdd(@, pl), !.e = @ + e]
GE(f) == LET F == fr[f]
             s == FE!Res(f)
         IN  {e \in {200 * kk} : F.U - e > s[Len(s)].E + kk} \cup {F.U - s[k].E : k \in 1..Len(s)}
MG(f) == \E e \in {x \in GE(f) : x > 0} :
           /\ \/ fr[f].U - e > FE!Top(FE!Res(f)) + kk /\ FE!EmitG(f, e, Side, FE!Abs(fr[f].p[1]), T0)
              \/ \E k \in 1..Len(FE!Res(f)) : FE!EmitGTo(f, k, e, Side, FE!Abs(fr[f].p[1]), T0)
           /\ out' = [out EXCEPT !.e = @ + e]
MD(f) == \E t \in 1..3, d \in {T0, << 20000000, -9 >>, << 30000000, -8 >>} :
           /\ t < fr[f].lev
           /\ LET e == FE!Res(f)[fr[f].lev].E - FE!Res(f)[t].E
                  a == IF d = T0 THEN fr[f].age ELSE d
              IN  /\ FE!DiscG(f, t, e, Side, FE!Abs(fr[f].p[1]), a)
                  /\ out' = [out EXCEPT !.e = @ + e]
MIC(f) == \E t \in 1..3 : /\ t < fr[f].lev
                          /\ FE!DiscIC(f, t)
                          /\ out' = [out EXCEPT !.e = @ + FE!Res(f)[fr[f].lev].E - FE!Res(f)[t].E]
MSilent(f) == /\ \E k \in 1..Len(FE!Res(f)) : FE!EnterLevel(f, k) \/ FE!StartLow(f, k)
              /\ UNCHANGED out
MSettle(f) == FE!Settle(f, fr[f].nn, fr[f].ng, fr[f].p, FE!KEof(fr[f].p, M4)) /\ UNCHANGED out

Cascade(f) == fr[f].st # "end" /\ (MN(f) \/ MG(f) \/ MD(f) \/ MIC(f) \/ MSilent(f) \/ MSettle(f))
(* the light fragment first, as in the code *)
MNext == \/ MCapture \/ MPre \/ MSci
         \/ Cascade(1)
         \/ fr[1].st = "end" /\ Cascade(2)
         \/ FE!Finish /\ UNCHANGED out
         \/ ph = "done" /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

SmallWindows == {NS}
BothSigns == {-1, 1}
AllWindows == {T0, NS, US}
-----------------------------------------------------------------------------
(* the guarantees *)
InFrag == ph \in {"fragments", "done"}
Nucleons == /\ ph = "compound" => comp.A + out.n = comp.A0
            /\ InFrag => fr[1].A + fr[2].A + out.n = comp.A0 /\ fr[1].Z + fr[2].Z = Zc
            /\ InFrag => fr[1].A > fr[1].Z /\ fr[2].A > fr[2].Z
Beam == IF comp.sf THEN 0 ELSE 40000
Momentum == /\ ph = "compound" => out.p[1] + comp.p[1] = Beam
            /\ InFrag => FE!Abs(out.p[1] + fr[1].p[1] + fr[2].p[1] - Beam) <= 40
EFin(f) == IF fr[f].st \in {"disc", "end"} THEN FE!Res(f)[fr[f].lev].E ELSE fr[f].U
(* mass-energy in = mass-energy out *)
Energy == InFrag =>
  LET start == TME(Zc, comp.A0) + out.e0
      now == TME(fr[1].Z, fr[1].A) + TME(fr[2].Z, fr[2].A) + out.n * FE!MnExcess + 2 * KE0 + out.e + EFin(1) + EFin(2)
  IN  FE!Abs(start - now + fr[1].leak + fr[2].leak) <= 2 * kk + comp.npre * 50 * kk + (out.n - comp.npre) * 200 + 400
(* only the start from the nearest level may leak energy, and less than half a level spacing or bin *)
Leaks == \A f \in 1..2 : FE!Abs(fr[f].leak) <= (IF fr[f].nn = 0 THEN 150 * kk ELSE 1 * kk)
NoDebt == \A f \in 1..2 : fr[f].U >= -kk
Ages == \A f \in 1..2 : /\ FE!TPos(comp.win) => FE!TLeq(fr[f].age, comp.win)
                        /\ fr[f].st = "cont" => fr[f].age = T0
(* a cascade that has ended is in the ground state or in a long-lived level that a window cut *)
Cold == \A f \in 1..2 : fr[f].st = "end" => fr[f].lev = 1 \/ (fr[f].lev = 2 /\ FE!TPos(comp.win))
Complete == <>(ph = "done")
=============================================================================
