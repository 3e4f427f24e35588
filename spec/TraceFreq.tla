------------------------------ MODULE TraceFreq ------------------------------
(* Observed counts of random choices against Frequencies.tla. data.json: a sequence of
     [k |-> "cells", c (counts), slack]                    equally likely cells
     [k |-> "polar", c, b, slack] / [k |-> "beam", c, row, E, slack]     |cos| in equal cells
     [k |-> "cos2", mean, n, row, E, slack]                mean of cos^2 to the beam
     [k |-> "tails", c, slack]                             cells that get smaller towards both ends
     [k |-> "mean", mean, n, slack]                        mean position (1e-6) of n values in their distributions
     [k |-> "pool", o |-> << .. >>]                        decay and chance observations together
     [k |-> "chance", c, tab, E, me, bar]                  number of pre-fission neutrons 0, 1, ..
     [k |-> "decay", s, lev, n, c]   n arrivals in level lev (seen by their photon, infinite window);
                                     c[f]: the next photon was the one to level f
     [k |-> "held", s, lev, n, c, q] the same for arrivals at age 0 and a window of q quarters of the half-life
     [k |-> "wait", n, q, c]         c[i] of n stays were shorter than q[i] quarters of the half-life         *)
EXTENDS Frequencies, Json

D == JsonDeserialize("data.json")
N == Len(D)
VARIABLE i
Init == i \in 1..N
RECURSIVE Squares(_, _, _, _, _, _)
Squares(c, n, p, slack, x, m) ==        \* the cells of one distribution together
  IF x > Len(c) THEN << 0, m >>
  ELSE IF ~Enough(n, p[x]) THEN Squares(c, n, p, slack, x + 1, m)
  ELSE LET r == Squares(c, n, p, slack, x + 1, m + 1) IN << ZZ(c[x], n, p[x], slack) + r[1], r[2] >>
Cells(c, p, slack) == LET n == Total(c, 1)
                          q == TLCEval(p)
                          r == Squares(c, n, q, slack, 1, 0)
                      IN  {x \in 1..Len(c) : ~Seen(c[x], n, q[x], slack)} \cup (IF Together(r[1], r[2]) THEN {} ELSE {0})
Sch(o) == [x \in 1..Len(o.s) |-> [E |-> o.s[x].E, J2 |-> o.s[x].J2, P |-> o.s[x].P, T |-> TZero, br |-> o.s[x].br]]
Decay(o, held) == LET s == Sch(o)
                      p(f) == LET g == PhotonTo(s, o.lev, f) IN IF held THEN MulDiv(g, Decayed(o.q), Million) ELSE g
                  IN  {f \in 1..Len(o.c) : ~Seen(o.c[f], o.n, p(f), 5)}
(* the cells of an observation: << count, trials, probability >> *)
CellsOf(o) ==
  IF o.k = "chance" THEN LET p == TLCEval(Chances(o.tab, o.E, o.me, o.bar)) IN
                         IF \E n \in 1..(Len(o.c) - 1) : Marginal(o.me, o.bar, o.E, n) /\ Table(o.tab, o.E)[n + 1] > 0 THEN << >>
                         ELSE [x \in 1..Len(o.c) |-> << o.c[x], Total(o.c, 1), p[x] >>]
  ELSE IF o.k = "wait" THEN << << o.c[3], o.n, Decayed(o.q[3]) >> >>
  ELSE LET s == Sch(o) IN [f \in 1..Len(o.c) |-> << o.c[f], o.n, LET g == PhotonTo(s, o.lev, f) IN IF o.k = "held" THEN MulDiv(g, Decayed(o.q), Million) ELSE g >>]
RECURSIVE Pool(_, _, _, _)
Pool(os, a, zz, m) ==
  IF a > Len(os) THEN Together(zz, m)
  ELSE LET cs == TLCEval(CellsOf(os[a])) IN
       LET RECURSIVE In(_, _, _)
           In(y, z, k) == IF y > Len(cs) THEN << z, k >>
                          ELSE IF Enough(cs[y][2], cs[y][3]) THEN In(y + 1, z + ZZ(cs[y][1], cs[y][2], cs[y][3], 5), k + 1) ELSE In(y + 1, z, k)
           r == TLCEval(In(1, 0, 0))
       IN  Pool(os, a + 1, zz + r[1], m + r[2])
Wrong(o) ==
  CASE o.k = "cells"  -> Cells(o.c, Uniform(Len(o.c)), o.slack)
    [] o.k = "polar"  -> Cells(o.c, Polar(o.b, Len(o.c)), o.slack)
    [] o.k = "beam"   -> Cells(o.c, Polar(Anisotropy(o.row, o.E), Len(o.c)), o.slack)
    [] o.k = "chance" -> IF \E n \in 1..(Len(o.c) - 1) : Marginal(o.me, o.bar, o.E, n) /\ Table(o.tab, o.E)[n + 1] > 0 THEN {}
                         ELSE Cells(o.c, Chances(o.tab, o.E, o.me, o.bar), 10)
    [] o.k = "cos2"   -> IF Cos2(o.mean, o.n, Anisotropy(o.row, o.E), o.slack) THEN {} ELSE {1}
    [] o.k = "tails"  -> Cells(o.c, Tails, o.slack)
    [] o.k = "mean"   -> IF Middle(o.mean, o.n, o.slack) THEN {} ELSE {1}
    [] o.k = "pool"   -> IF Pool(o.o, 1, 0, 0) THEN {} ELSE {1}
    [] o.k = "decay"  -> Decay(o, FALSE)
    [] o.k = "held"   -> Decay(o, TRUE)
    [] o.k = "wait"   -> {x \in 1..Len(o.c) : ~Seen(o.c[x], o.n, Decayed(o.q[x]), 5)}
Next == TLCSet(2, [TLCGet(2) EXCEPT ![i] = Wrong(D[i])]) /\ UNCHANGED i
Spec == Init /\ [][Next]_i
ASSUME TLCSet(2, [x \in 1..N |-> {0}])
Accepted == PrintT(ToJson([rejected |-> [x \in 1..N |-> TLCGet(2)[x]]])) /\ \A x \in 1..N : TLCGet(2)[x] = {}
=============================================================================
