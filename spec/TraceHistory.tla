---------------------------- MODULE TraceHistory ----------------------------
(* History files written by cgmf.x against the events the library reports for the
   same requests: one run per initial state.
   data.json: runs << [head, hdr, ages, lines, events] >>                      *)
EXTENDS HistoryFile, TLC, Json

D == JsonDeserialize("data.json")
N == Len(D)
VARIABLES run, l, ev, j        \* next line, current event, next line of its text
vars == << run, l, ev, j >>
R == D[run]

Init == run \in 1..N /\ l = 1 /\ ev = 0 /\ j = 1
(* << "#", ZAID, energy, window >>, as in the request *)
Header == /\ ev = 0 /\ l <= Len(R.lines)
          /\ R.head = R.hdr
          /\ ev' = 1 /\ j' = 1 /\ UNCHANGED << run, l >>
WriteLine == /\ ev > 0 /\ ev <= Len(R.events) /\ l <= Len(R.lines)
             /\ LET e == R.events[ev]
                    ks == EventLines(e)
                IN  /\ IsText(R.lines[l], e, ks[j], R.ages)
                    /\ IF j = Len(ks) THEN ev' = ev + 1 /\ j' = 1 ELSE ev' = ev /\ j' = j + 1
             /\ l' = l + 1 /\ UNCHANGED run
Done == /\ ev = Len(R.events) + 1 /\ l = Len(R.lines) + 1
        /\ TLCSet(2, [TLCGet(2) EXCEPT ![run] = TRUE]) /\ UNCHANGED vars
Next == Header \/ WriteLine \/ Done
Spec == Init /\ [][Next]_vars
ASSUME TLCSet(1, [i \in 1..N |-> 0]) /\ TLCSet(2, [i \in 1..N |-> FALSE])
Track == IF TLCGet(1)[run] < l THEN TLCSet(1, [TLCGet(1) EXCEPT ![run] = l]) ELSE TRUE
Rejected == {i \in 1..N : ~TLCGet(2)[i]}
Accepted == PrintT(<< "REJECTED", Rejected, [i \in Rejected |-> TLCGet(1)[i]] >>) /\ Rejected = {}
=============================================================================
