---------------------------- MODULE TraceYields ----------------------------
(* yields files of the real code: one file per initial state.
   data.json: tables as for TraceEvent; laws; runs << [cap, n, lines, same] >> (same: repeating the
   run, and the yields class with the same stream, gave the same text); a line is a
   fragment, or [ok |-> FALSE] if it is not nine numbers                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

D == JsonDeserialize("data.json")
Z0 == D.z0
A0 == D.a0
IdxOk(Z, A) == Z - Z0 \in 1..Len(D.me) /\ A - A0[Z - Z0] \in 1..Len(D.me[Z - Z0])
TKnown(Z, A) == IdxOk(Z, A) /\ D.m4[Z - Z0][A - A0[Z - Z0]] > 0
TMassExcess(Z, A) == D.me[Z - Z0][A - A0[Z - Z0]]
TMass4(Z, A) == D.m4[Z - Z0][A - A0[Z - Z0]]
TScheme(Z, A) == << >>
TJudge == {}
VARIABLES ph, comp, fr, run, l
YF == INSTANCE YieldsFile WITH MassExcess <- TMassExcess, Mass4 <- TMass4, Known <- TKnown, Scheme <- TScheme, Judge <- TJudge
N == Len(D.runs)
Laws == {D.laws[i] : i \in DOMAIN D.laws}
R == D.runs[run]
tv == << ph, comp, fr, run, l >>
TInit == YF!Init /\ run \in 1..N /\ l = 1
Cap == YF!Capture(R.cap.Z, R.cap.A, R.cap.E, R.cap.p, << 0, 0 >>) /\ UNCHANGED << run, l >>
Take == /\ l + 1 <= Len(R.lines) /\ R.lines[l].ok /\ R.lines[l + 1].ok
        /\ YF!Pair(R.lines[l], R.lines[l + 1], Laws)
        /\ l' = l + 2 /\ UNCHANGED << ph, comp, fr, run >>
Done == /\ ph = "compound" /\ l = Len(R.lines) + 1 /\ Len(R.lines) = 2 * R.n /\ R.same
        /\ Cardinality({R.lines[i].p : i \in 1..Len(R.lines)}) = Len(R.lines)     \* every pair is a sample of its own
        /\ TLCSet(2, [TLCGet(2) EXCEPT ![run] = TRUE]) /\ UNCHANGED tv
TNext == Cap \/ Take \/ Done
TSpec == TInit /\ [][TNext]_tv
ASSUME TLCSet(1, [i \in 1..N |-> 0]) /\ TLCSet(2, [i \in 1..N |-> FALSE])
Track == IF TLCGet(1)[run] < l THEN TLCSet(1, [TLCGet(1) EXCEPT ![run] = l]) ELSE TRUE
Rejected == {i \in 1..N : ~TLCGet(2)[i]}
Accepted == PrintT(<< "REJECTED", Rejected, [i \in Rejected |-> TLCGet(1)[i]] >>) /\ Rejected = {}
=============================================================================
