------------------------------- MODULE Reader -------------------------------
(* The history file as seen by a reader: the text of a list of events, and the
   events a text stands for. Values are the printed digits (1.234 is 1234, a spin
   of 7/2 is 7); an age is its token.
   A fragment: [A, Z, U, J, P, KE, KEp, p, q, c, n, g]; an event: [L, H, pre].      *)
EXTENDS Integers, Sequences, SequencesExt

(* ---- writing *)
T3(s) == [i \in 1..Len(s) |-> << 3, s[i] >>]
Flat(ss) == FlattenSeq(ss)
WFrag(F, npre) == << << 0, F.A >>, << 0, F.Z >>, << 3, F.U >>, << 1, 5 * F.J >>, << 0, F.P >>, << 3, F.KE >>, << 3, F.KEp >>,
                     << 0, Len(F.n) >>, << 0, Len(F.g) >>, << 0, npre >> >>
WQuads(xs) == Flat([i \in 1..Len(xs) |-> T3(xs[i])])
WPhotons(xs, ages) == Flat([i \in 1..Len(xs) |-> T3(SubSeq(xs[i], 1, 4)) \o (IF ages THEN << xs[i][5] >> ELSE << >>)])
WLine(on, l) == IF on THEN << l >> ELSE << >>
WFragment(F, npre, ages) ==
  << WFrag(F, npre), T3(F.p) \o T3(F.q) >> \o WLine(Len(F.n) > 0, WQuads(F.c)) \o WLine(Len(F.n) > 0, WQuads(F.n))
  \o WLine(Len(F.g) > 0, WPhotons(F.g, ages))
WEvent(e, ages) == WFragment(e.L, 0, ages) \o WFragment(e.H, Len(e.pre), ages) \o WLine(Len(e.pre) > 0, WQuads(e.pre))
RECURSIVE WFile(_, _)
WFile(es, ages) == IF es = << >> THEN << >> ELSE WEvent(Head(es), ages) \o WFile(Tail(es), ages)

(* ---- reading: the fragment that starts at line i, and the line after it *)
NoAge == << 0, 0 >>
Vals(ts, from, k) == [j \in 1..k |-> ts[from + j - 1][2]]
RQuads(ts, m) == [j \in 1..m |-> Vals(ts, 4 * j - 3, 4)]
RPhotons(ts, m, ages) == IF ages THEN [j \in 1..m |-> Vals(ts, 5 * j - 4, 4) \o << ts[5 * j] >>]
                         ELSE [j \in 1..m |-> Vals(ts, 4 * j - 3, 4) \o << NoAge >>]
RFragment(ls, i, ages) ==
  LET f == ls[i]
      nu == f[8][2]
      ng == f[9][2]
      m == ls[i + 1]
      k == i + 2 + (IF nu > 0 THEN 2 ELSE 0)
  IN  [F |-> [A |-> f[1][2], Z |-> f[2][2], U |-> f[3][2], J |-> f[4][2] \div 5, P |-> f[5][2], KE |-> f[6][2], KEp |-> f[7][2],
              p |-> Vals(m, 1, 3), q |-> Vals(m, 4, 3),
              c |-> IF nu > 0 THEN RQuads(ls[i + 2], nu) ELSE << >>,
              n |-> IF nu > 0 THEN RQuads(ls[i + 3], nu) ELSE << >>,
              g |-> IF ng > 0 THEN RPhotons(ls[k], ng, ages) ELSE << >>],
       npre |-> f[10][2],
       next |-> k + (IF ng > 0 THEN 1 ELSE 0)]
REvent(ls, i, ages) ==
  LET l == RFragment(ls, i, ages)
      h == RFragment(ls, l.next, ages)
  IN  [e |-> [L |-> l.F, H |-> h.F, pre |-> IF h.npre > 0 THEN RQuads(ls[h.next], h.npre) ELSE << >>],
       next |-> h.next + (IF h.npre > 0 THEN 1 ELSE 0)]
RECURSIVE RFile(_, _, _)
RFile(ls, i, ages) == IF i > Len(ls) THEN << >> ELSE LET r == REvent(ls, i, ages) IN << r.e >> \o RFile(ls, r.next, ages)
=============================================================================
