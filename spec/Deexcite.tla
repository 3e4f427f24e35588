------------------------------ MODULE Deexcite ------------------------------
(* A call that de-excites one nucleus. It reports in which 50 keV bins photons
   (or conversion electrons) and neutrons were emitted, each bin once. A report is
   right if some cascade of the nucleus to its ground state has exactly these bins. *)
EXTENDS Levels

CONSTANTS MassExcess(_, _), Known(_, _), Scheme(_, _)

Bin  == 50000
Half == 25000
MnCasc == 8071431
Sn(Z, A) == MassExcess(Z, A - 1) + MnCasc - MassExcess(Z, A)
RECURSIVE Separation(_, _, _)
Separation(Z, A, m) == IF m = 0 THEN 0 ELSE Sn(Z, A) + Separation(Z, A - 1, m - 1)
RECURSIVE KnownTo(_, _, _)
KnownTo(Z, A, m) == m = 0 \/ (Known(Z, A) /\ Known(Z, A - 1) /\ KnownTo(Z, A - 1, m - 1))

(* the lines: bin numbers, strictly increasing, the lowest bin is never reported, at most 30 *)
Form(ls) == /\ Len(ls) <= 30
            /\ \A i \in 1..Len(ls) : ls[i] >= 1
            /\ \A i \in 1..(Len(ls) - 1) : ls[i] < ls[i + 1]
RECURSIVE Sum(_, _)
Sum(ls, i) == IF i > Len(ls) THEN 0 ELSE ls[i] + Sum(ls, i + 1)
Set(ls) == {ls[i] : i \in 1..Len(ls)}

(* can x (eV) be made of exactly k more emissions in the bins of L? *)
RECURSIVE More(_, _, _, _)
More(x, k, L, tol) ==
  IF k = 0 THEN Abs(x) <= tol
  ELSE x >= -tol /\ \E b \in L : More(x - b * Bin, k - 1, L, tol + Half)
Repeats == 3
Hidden  == 2     \* emissions below 25 keV are not reported
Fits(x, n, L) ==
  LET tol == (n + Hidden) * Half + 200
  IN  \/ \E k \in 0..Repeats : More(x, k, L, tol)
      \/ L # {} /\ LET least == CHOOSE b \in L : \A c \in L : b <= c IN x >= (Repeats + 1) * (least * Bin - Half) - tol

(* through the continuum: the energies and the separation energies add up *)
ThroughContinuum(Z, A, ex, gs, ns) ==
  \E m \in Len(ns)..(Len(ns) + 2) :        \* neutrons may share a bin or be slower than 25 keV
    /\ KnownTo(Z, A, m)
    /\ m >= 1 => Separation(Z, A, m) <= ex + 200
    /\ LET x == ex - Separation(Z, A, m) - Bin * (Sum(gs, 1) + Sum(ns, 1))
           L == Set(gs) \cup (IF m > Len(ns) THEN Set(ns) ELSE {})
       IN  Fits(x, Len(gs) + m, L)

(* nothing shared a bin and nothing stayed below 25 keV: most reports of a few lines are such *)
Plain(Z, A, ex, gs, ns) ==
  LET m == Len(ns) IN
  KnownTo(Z, A, m) /\ Abs(ex - Separation(Z, A, m) - Bin * (Sum(gs, 1) + Sum(ns, 1))) <= (Len(gs) + m) * Half + 200
(* of n reports of some length, k were plain *)
Mostly(k, n) == n >= 30 => 2 * k >= n

(* from one of the levels: a chain of its transitions *)
Bins(e) == {b \in {(e - 10 + Half) \div Bin, (e + 10 + Half) \div Bin} : TRUE}
RECURSIVE Chain(_, _, _, _)
Chain(s, k, G, used) ==
  IF k = 1 THEN used = G
  ELSE \E i \in 1..Len(Branches(s, k)) :
         LET br == Branches(s, k)[i]
             f  == br[1] + 1
         IN  /\ br[2] > 0
             /\ \E b \in Bins(s[k].E - s[f].E) : b \in G \cup {0} /\ Chain(s, f, G, used \cup ({b} \ {0}))
Nearest(s, U) == {k \in 1..Len(s) : \A j \in 1..Len(s) : Abs(U - s[k].E) <= Abs(U - s[j].E) + 2}
FromLevel(Z, A, ex, gs, ns) ==
  LET s == Scheme(Z, A) IN
  /\ ex <= Top(s) + Bin + 1000
  /\ ns = << >>
  /\ \E k \in Nearest(s, ex) : Chain(s, k, Set(gs), {})

(* below the highest level no cascade goes through the continuum *)
MustBeLevel(Z, A, ex) == ex <= Top(Scheme(Z, A)) - 1000
Report(Z, A, ex, gs, ns) ==
  /\ Form(gs) /\ Form(ns)
  /\ IF MustBeLevel(Z, A, ex) THEN FromLevel(Z, A, ex, gs, ns)
     ELSE FromLevel(Z, A, ex, gs, ns) \/ ThroughContinuum(Z, A, ex, gs, ns)
=============================================================================
