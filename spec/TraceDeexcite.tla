---------------------------- MODULE TraceDeexcite ----------------------------
(* Reports of the library's de-excitation call. data.json: one record
   [calls: << [Z, A, ex, g, n] >>, z0, a0, me, m4, si, schemes] (tables as in TraceEvent) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

D == JsonDeserialize("data.json")[1]
N == Len(D.calls)
IdxOk(Z, A) == Z - D.z0 \in 1..Len(D.me) /\ A - D.a0[Z - D.z0] \in 1..Len(D.me[Z - D.z0])
TKnown(Z, A) == IdxOk(Z, A) /\ D.m4[Z - D.z0][A - D.a0[Z - D.z0]] > 0
TMassExcess(Z, A) == D.me[Z - D.z0][A - D.a0[Z - D.z0]]
GroundState == << [E |-> 0, J2 |-> 0, P |-> 1, T |-> << 0, 0 >>, br |-> << >>] >>
TScheme(Z, A) == LET i == IF IdxOk(Z, A) THEN D.si[Z - D.z0][A - D.a0[Z - D.z0]] ELSE 0
                 IN  IF i = 0 THEN GroundState ELSE D.schemes[i]
DX == INSTANCE Deexcite WITH MassExcess <- TMassExcess, Known <- TKnown, Scheme <- TScheme

VARIABLE i
Init == i \in 1..N
Ok == LET q == D.calls[i] IN q.fin /\ DX!Report(q.Z, q.A, q.ex, q.g, q.n)
(* reports by their number of lines: 1-3, 4-6, 7-9 *)
Size(q) == Len(q.g) + Len(q.n)
Class(q, c) == q.fin /\ Size(q) > 3 * (c - 1) /\ Size(q) <= 3 * c
OfClass(c) == {x \in 1..N : Class(D.calls[x], c)}
PlainOf(c) == {x \in OfClass(c) : LET q == D.calls[x] IN DX!Plain(q.Z, q.A, q.ex, q.g, q.n)}
Many(c) == DX!Mostly(Cardinality(PlainOf(c)), Cardinality(OfClass(c)))
Next == TLCSet(2, [TLCGet(2) EXCEPT ![i] = IF Ok THEN {} ELSE {i}]) /\ UNCHANGED i
Spec == Init /\ [][Next]_i
ASSUME TLCSet(2, [x \in 1..N |-> {0}])
Accepted == PrintT(ToJson([rejected |-> << UNION {TLCGet(2)[x] : x \in 1..N} \cup {-c : c \in {y \in 1..3 : ~Many(y)}} >>,
                             plain |-> [c \in 1..3 |-> << Cardinality(PlainOf(c)), Cardinality(OfClass(c)) >>]])) /\ \A x \in 1..N : TLCGet(2)[x] = {}
            /\ \A c \in 1..3 : Many(c)
=============================================================================
