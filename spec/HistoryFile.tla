---------------------------- MODULE HistoryFile ----------------------------
(* The history file as the text cgmf.x writes and CGMFtk reads: a header and, per
   event, the lines of the light and of the heavy fragment.

   A token is << decimals, digits >>: 12.345 is << 3, 12345 >>, 7 is << 0, 7 >>;
   an age printed with %g is << -1, mantissa (6 digits), exponent >>.
   An event is [L, H, pre]; a fragment is
     [A, Z, U, J, P, KE, KEp, p (3), q (3), c, n, g]
   with c, n, g the lists of neutrons in the fragment's frame, neutrons in the
   laboratory and photons, << u, v, w, E >> or << u, v, w, E, age >>; pre is the
   list of pre-fission neutrons. Values are in 1e-5 of their unit, spins in 1/2. *)
EXTENDS Integers, Sequences

HAbs(x) == IF x < 0 THEN -x ELSE x

(* a printed token shows a value *)
ShowsInt(t, v) == t = << 0, v >>
Shows3(t, v) == t[1] = 3 /\ HAbs(t[2] * 100 - v) <= 51
ShowsSpin(t, j2) == t[1] = 1 /\ t[2] = 5 * j2
ShowsAge(t, a) == \/ a[1] = 0 /\ t = << 0, 0 >>
                  \/ /\ a[1] # 0 /\ t[1] = -1
                     /\ \/ t[3] = a[2] /\ HAbs(t[2] * 100 - a[1]) <= 51
                        \/ t[3] = a[2] + 1 /\ t[2] = 100000 /\ a[1] >= 99999949

(* the lines of one event: kinds in order *)
Opt(c, k) == IF c THEN << k >> ELSE << >>
FragLines(F, f) == << << "frag", f >>, << "mom", f >> >> \o Opt(Len(F.c) > 0, << "cm", f >>) \o Opt(Len(F.n) > 0, << "lab", f >>)
                   \o Opt(Len(F.g) > 0, << "gam", f >>)
EventLines(e) == FragLines(e.L, 1) \o FragLines(e.H, 2) \o Opt(Len(e.pre) > 0, << "pre", 2 >>)

FragOf(e, f) == IF f = 1 THEN e.L ELSE e.H

FragTokens(line, F, npre) ==
  /\ Len(line) = 10
  /\ ShowsInt(line[1], F.A) /\ ShowsInt(line[2], F.Z)
  /\ Shows3(line[3], F.U) /\ ShowsSpin(line[4], F.J) /\ ShowsInt(line[5], F.P)
  /\ Shows3(line[6], F.KE) /\ Shows3(line[7], F.KEp)
  /\ ShowsInt(line[8], Len(F.n)) /\ ShowsInt(line[9], Len(F.g)) /\ ShowsInt(line[10], npre)
MomTokens(line, F) == Len(line) = 6 /\ \A i \in 1..3 : Shows3(line[i], F.p[i]) /\ Shows3(line[3 + i], F.q[i])
Quads(line, xs) == /\ Len(line) = 4 * Len(xs)
                   /\ \A i \in 1..Len(xs) : \A j \in 1..4 : Shows3(line[4 * (i - 1) + j], xs[i][j])
Quints(line, xs) == /\ Len(line) = 5 * Len(xs)
                    /\ \A i \in 1..Len(xs) : /\ \A j \in 1..4 : Shows3(line[5 * (i - 1) + j], xs[i][j])
                                             /\ ShowsAge(line[5 * i], xs[i][5])

(* the text of the line of kind k of event e; ages: photons carry their age *)
IsText(line, e, k, ages) ==
  LET F == FragOf(e, k[2]) IN
  CASE k[1] = "frag" -> FragTokens(line, F, IF k[2] = 2 THEN Len(e.pre) ELSE 0)
    [] k[1] = "mom" -> MomTokens(line, F)
    [] k[1] = "cm" -> Quads(line, F.c)
    [] k[1] = "lab" -> Quads(line, F.n)
    [] k[1] = "gam" -> IF ages THEN Quints(line, F.g) ELSE Quads(line, F.g)
    [] k[1] = "pre" -> Quads(line, e.pre)
=============================================================================
