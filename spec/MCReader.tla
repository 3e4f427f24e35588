------------------------------ MODULE MCReader ------------------------------
(* reading inverts writing, for every mix of multiplicities of two events: all shapes *)
EXTENDS Reader, TLC
CONSTANTS MaxN, MaxG, MaxP
VARIABLES es, ages, k           \* k numbers the values, so that every number of a file differs
Seq4(m, k0) == [i \in 1..m |-> [j \in 1..4 |-> k0 + 4 * i + j]]
Gam(m, k0, a) == [i \in 1..m |-> [j \in 1..4 |-> k0 + 4 * i + j] \o << IF a THEN << -1, k0 + i, -9 >> ELSE NoAge >>]
Frag(nu, ng, k0, a) == [A |-> k0 + 1, Z |-> k0 + 2, U |-> k0 + 3, J |-> k0 + 4, P |-> 1 - 2 * (k0 % 2), KE |-> k0 + 5, KEp |-> k0 + 6,
                        p |-> << k0 + 7, k0 + 8, k0 + 9 >>, q |-> << k0 + 10, k0 + 11, k0 + 12 >>,
                        c |-> Seq4(nu, k0 + 100), n |-> Seq4(nu, k0 + 200), g |-> Gam(ng, k0 + 300, a)]
Init == es = << >> /\ ages \in BOOLEAN /\ k = 0
Next == /\ Len(es) < 2
        /\ \E a, b \in 0..MaxN, c, d \in 0..MaxG, m \in 0..MaxP :
             es' = Append(es, [L |-> Frag(a, c, k, ages), H |-> Frag(b, d, k + 1000, ages), pre |-> Seq4(m, k + 2000)])
        /\ k' = k + 4000 /\ UNCHANGED ages
Spec == Init /\ [][Next]_<< es, ages, k >>
RoundTrip == RFile(WFile(es, ages), 1, ages) = es
=============================================================================
