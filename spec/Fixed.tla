------------------------------- MODULE Fixed -------------------------------
(* Fixed-point arithmetic inside TLC's 32-bit integers.

   Units used by the event specifications
     energy      eV
     momentum    1e-4 MeV/c
     mass        1/4 MeV/c^2
     direction   1e-6
     velocity    1e-6 c
     time        << mantissa, exponent >>, 1e7 <= mantissa < 1e8, or <<0, 0>>  *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b

(* floor(a*b/c) for a, b >= 0 and 0 < c <= 1000000, without leaving 32 bits *)
MulDivPos(a, b, c) ==
  LET ra == a % c
      qa == a \div c
      d3 == b \div 1000000000
      d2 == (b \div 1000000) % 1000
      d1 == (b \div 1000) % 1000
      d0 == b % 1000
      r3 == d3 * ra
      t2 == (r3 % c) * 1000 + d2 * ra
      q2 == (r3 \div c) * 1000 + t2 \div c
      t1 == (t2 % c) * 1000 + d1 * ra
      q1 == q2 * 1000 + t1 \div c
      t0 == (t1 % c) * 1000 + d0 * ra
      q0 == q1 * 1000 + t0 \div c
  IN  qa * b + q0

MulDiv(a, b, c) ==
  IF (a < 0) = (b < 0) THEN MulDivPos(Abs(a), Abs(b), c) ELSE -MulDivPos(Abs(a), Abs(b), c)

(* square of a momentum (1e-4 MeV/c, |p| < 1.2e8), in 0.1 (MeV/c)^2 *)
Sq(p) == LET a == Abs(p)
             h == a \div 10000
             l == a % 10000
         IN  h * h * 10 + (2 * h * l) \div 1000 + (l * l) \div 10000000

Sq3(v) == Sq(v[1]) + Sq(v[2]) + Sq(v[3])

(* kinetic energy (eV) of momentum v and mass m4 *)
KEof(v, m4) == MulDiv(Sq3(v), 200000, m4)

VAdd(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
VSub(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
VScale(a, n, d) == << MulDiv(a[1], n, d), MulDiv(a[2], n, d), MulDiv(a[3], n, d) >>
(* momentum of a neutron that moves with a body of momentum p and mass m4: (Mn/M) p *)
CoMoving(p, m4) == << MulDiv(p[1], 375826, m4) \div 100, MulDiv(p[2], 375826, m4) \div 100, MulDiv(p[3], 375826, m4) \div 100 >>
VNear(a, b, tol) == \A i \in 1..3 : Abs(a[i] - b[i]) <= tol
VZero == << 0, 0, 0 >>

(* |d| = 1 for a direction in 1e-6 units, to about 5e-6 *)
Unit(d) == Abs((MulDiv(d[1], d[1], 1000000) + MulDiv(d[2], d[2], 1000000) + MulDiv(d[3], d[3], 1000000)) - 1000000) <= 10

(* times *)
TZero == << 0, 0 >>
TLeq(a, b) == \/ a[1] = 0
              \/ /\ b[1] # 0
                 /\ \/ a[2] < b[2]
                    \/ a[2] = b[2] /\ a[1] <= b[1]
TPos(a) == a[1] > 0
TMul(a, n) ==       (* n <= 200, result rounded up to a power-of-ten neighbourhood *)
  IF a[1] = 0 THEN TZero
  ELSE LET x == (a[1] \div 1000 + 1) * n          \* < 2e7
           k == IF x >= 10000000 THEN 3 ELSE IF x >= 1000000 THEN 2 ELSE IF x >= 100000 THEN 1 ELSE 0
       IN  << IF k = 3 THEN x ELSE IF k = 2 THEN x * 10 ELSE IF k = 1 THEN x * 100 ELSE x * 1000, a[2] + k >>
TMax(a, b) == IF TLeq(a, b) THEN b ELSE a
=============================================================================
