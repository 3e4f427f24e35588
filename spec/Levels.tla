------------------------------- MODULE Levels -------------------------------
(* Discrete level schemes: what the de-excitation of a nucleus may do, given
   the level file as the user wrote it.

   A raw scheme is a sequence of levels [E, J2, P, T, br], ground state first;
   br is a sequence of << final (0-based), weight, 1000*conversion coefficient >>.
   A nucleus that is not in the file has a ground state only.               *)
EXTENDS Fixed, FiniteSets

GroundOnly == << [E |-> 0, J2 |-> 0, P |-> 1, T |-> TZero, br |-> << >>] >>

RECURSIVE SumW(_, _)
SumW(br, i) == IF i > Len(br) THEN 0 ELSE br[i][2] + SumW(br, i + 1)

IDiv(a) == a \div 2      \* integer part of |J - J'| from doubled spins

(* file has no gamma ray for level k (1-based): E1 transitions if any, else the
   closest spin, lowest level first; the first excited level goes to the ground state *)
Skip00(s, k, i) == s[k].J2 = 0 /\ s[i].J2 = 0
Invented(s, k) ==
  IF k = 2 THEN << << 0, 1, 0 >> >>
  ELSE LET low  == 1..(k - 1)
           dj(i) == IDiv(Abs(s[i].J2 - s[k].J2))
           e1   == {i \in low : ~Skip00(s, k, i) /\ s[i].P # s[k].P /\ dj(i) <= 1}
           cand == {i \in low : ~Skip00(s, k, i)}
           best == {i \in cand : \A j \in cand : dj(i) <= dj(j)}
       IN  IF e1 # {}
           THEN LET RECURSIVE Seq1(_)
                    Seq1(i) == IF i >= k THEN << >>
                               ELSE (IF i \in e1 THEN << << i - 1, 1, 0 >> >> ELSE << >>) \o Seq1(i + 1)
                IN  Seq1(1)
           ELSE IF best # {}
           THEN << << (CHOOSE i \in best : \A j \in best : i <= j) - 1, 1, 0 >> >>
           ELSE << << 0, 1, 0 >> >>

(* effective branches of level k *)
Branches(s, k) ==
  LET br == s[k].br
  IN  IF Len(br) = 0 THEN Invented(s, k)
      ELSE IF SumW(br, 1) = 0 THEN [i \in 1..Len(br) |-> << br[i][1], 1, 0 >>]
      ELSE br

(* one gamma ray / one internal conversion from level k to level f *)
GammaTo(s, k)      == {Branches(s, k)[i][1] + 1 : i \in {i \in 1..Len(Branches(s, k)) : Branches(s, k)[i][2] > 0}}
ConversionTo(s, k) == {Branches(s, k)[i][1] + 1 : i \in {i \in 1..Len(Branches(s, k)) : Branches(s, k)[i][2] > 0 /\ Branches(s, k)[i][3] > 0}}

Top(s) == s[Len(s)].E
=============================================================================
