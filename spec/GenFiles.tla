------------------------------ MODULE GenFiles ------------------------------
(* History files: any mix of multiplicities, built fragment by fragment as the
   writer does; values drawn by TLC from sets with coincidences (equal masses, equal
   energies, energies on thresholds, total kinetic energies on bin boundaries).   *)
EXTENDS Reader, TLC, Json
CONSTANTS MaxEvents, Ac, Zc, Ages, Same    \* Same: all fragments have the same multiplicities
VARIABLES es, cur, sh, end, want
R(S) == RandomElement(S)
En == {0, 2, 7, 99, 101, 250, 499, 500, 501, 750, 999, 1000, 1001, 1234, 2000, 2500, 5678, 9999, 12345, 20001}
Dir(x) == << R(-1000..1000), R(-1000..1000), R(-1000..1000) >>
TripleSet == { << 1, 2, 2 >>, << 2, 3, 6 >>, << 1, 4, 8 >>, << 4, 4, 7 >>, << 2, 6, 9 >>, << 6, 6, 7 >>, << 3, 4, 12 >>, << 2, 5, 14 >>, << 0, 3, 4 >>, << 0, 5, 12 >>, << 0, 0, 1 >> }
Perms == { << 1, 2, 3 >>, << 2, 3, 1 >>, << 3, 1, 2 >>, << 3, 2, 1 >>, << 2, 1, 3 >>, << 1, 3, 2 >> }
Mom(x) == LET t == R(TripleSet)
           o == R(Perms)
           k == R(40..290)
       IN  << R({-1000, 1000}) * k * t[o[1]], R({-1000, 1000}) * k * t[o[2]], R({-1000, 1000}) * k * t[o[3]] >>
Neutron(x) == Dir(x) \o << R(En) >>
Age(x) == IF R(1..3) = 1 THEN << 0, 0 >> ELSE << -1, R({100000, 123456, 200000, 345670, 999999, 500000}), R(-10..1) >>
Photon(x) == Dir(x) \o << R(En) >> \o << IF Ages THEN Age(x) ELSE NoAge >>
Many(m, X(_)) == [i \in 1..m |-> X(i)]
Fragment(A, Z, nu, ng) ==
  [A |-> A, Z |-> Z, U |-> R(0..40000), J |-> 2 * R(0..14) + (A % 2), P |-> R({-1, 1}), KE |-> 125 * R({500, 501, 504, 508, 512, 520, 560, 600, 603}),
   KEp |-> 125 * R(400..900), p |-> Mom(1), q |-> Mom(2),
   c |-> Many(nu, Neutron), n |-> Many(nu, Neutron), g |-> Many(ng, Photon)]
(* everything that was drawn is fixed by storing it in a variable *)
Init == want \in 1..MaxEvents /\ end = FALSE /\ es = << >> /\ cur = << >> /\ sh \in (IF Same THEN (0..3) \X (0..3) ELSE {<< 0, 0 >>})
Nus == IF Same THEN {sh[1]} ELSE {0, 1, 2, 3, 4, 7}
Ngs == IF Same THEN {sh[2]} ELSE {0, 1, 2, 3, 5, 8, 13}
Light == /\ ~end /\ cur = << >> /\ Len(es) < want
         /\ \E nu \in Nus, ng \in Ngs : cur' = << Fragment(R({94, 95, 96, 100, 104}), R(36..42), nu, ng) >>
         /\ UNCHANGED << es, sh, end, want >>
Heavy == /\ Len(cur) = 1
         /\ \E np \in (IF Same THEN {(sh[1] % 3)} ELSE 0..3), nu \in Nus, ng \in Ngs :
              LET L == cur[1]
              IN  es' = Append(es, [L |-> L, H |-> Fragment(Ac - np - L.A, Zc - L.Z, nu, ng), pre |-> Many(np, Neutron)])
         /\ cur' = << >> /\ UNCHANGED << sh, end, want >>
End == ~end /\ cur = << >> /\ Len(es) = want /\ end' = TRUE /\ UNCHANGED << es, cur, sh, want >>
Next == Light \/ Heavy \/ End
Spec == Init /\ [][Next]_<< es, cur, sh, end, want >>
Emit == end => PrintT(ToJson(WFile(es, Ages)))
=============================================================================
