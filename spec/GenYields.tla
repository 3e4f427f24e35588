------------------------------ MODULE GenYields ------------------------------
(* Yields files: pairs of lines, light then heavy, of the tokens Z A KE U J P px py pz;
   numbers have six significant digits: << 0, n >> or << -1, mantissa, exponent >>.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxEvents
VARIABLES rows, want
R(S) == RandomElement(S)
Whole(x) == << 0, x >>
Dec(lo, hi) == << -1, R({100000, 123456, 999999, 250000, 100001, 700000} \cup {R(100000..999999)}), R(lo..hi) >>
Signed(lo, hi) == LET t == Dec(lo, hi) IN << -1, R({-1, 1}) * t[2], t[3] >>
Line(Z, A) == << Whole(Z), Whole(A), R({<< -1, R(500000..999999), 1 >>, << -1, R({100000, 100001, 123456, 180000, 150000}), 2 >>}), R({Whole(0), Dec(-5, 1)}), << 2, 2 * R(0..15) + (A % 2) >>, Whole(R({-1, 1})), Signed(-2, 3), Signed(-2, 3), R({Whole(0), Signed(-2, 3)}) >>
Init == rows = << >> /\ want \in 1..MaxEvents
Next == /\ Len(rows) < 2 * want
        /\ \E A \in {82, 95, 100, 118, 125} : rows' = rows \o << Line(R(32..49), A), Line(R(43..60), 250 - A - R(0..3)) >>
        /\ UNCHANGED want
Spec == Init /\ [][Next]_<< rows, want >>
Emit == Len(rows) = 2 * want => PrintT(ToJson(rows))
=============================================================================
