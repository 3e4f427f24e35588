----------------------------- MODULE TraceEvent -----------------------------
(* Recorded events of the real code as behaviours of FissionEvent.

   data.json holds the mass table, the level schemes the library was given, the
   laws to judge and the events; an event is a sequence of lines, one per
   observable step. Every event is an initial state of its own, so that one
   rejected event does not hide the others; silent steps (entering a level,
   internal conversion) are inferred.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

D == JsonDeserialize("data.json")
Z0 == D.z0
A0 == D.a0
IdxOk(Z, A) == Z - Z0 \in 1..Len(D.me) /\ A - A0[Z - Z0] \in 1..Len(D.me[Z - Z0])
TKnown(Z, A) == IdxOk(Z, A) /\ D.m4[Z - Z0][A - A0[Z - Z0]] > 0
TMassExcess(Z, A) == D.me[Z - Z0][A - A0[Z - Z0]]
TMass4(Z, A) == D.m4[Z - Z0][A - A0[Z - Z0]]
TJudge == {D.judge[i] : i \in 1..Len(D.judge)}

VARIABLES ph, comp, fr, ev, l
tvars == << ph, comp, fr, ev, l >>

Lv == INSTANCE Levels
TScheme(Z, A) == LET i == IF IdxOk(Z, A) THEN D.si[Z - Z0][A - A0[Z - Z0]] ELSE 0
                 IN  IF i = 0 THEN Lv!GroundOnly ELSE D.schemes[i]

FE == INSTANCE FissionEvent WITH MassExcess <- TMassExcess, Mass4 <- TMass4, Known <- TKnown,
                                 Scheme <- TScheme, Judge <- TJudge

N == Len(D.events)
Lines == D.events[ev]
Line == Lines[l]
Is(k) == l <= Len(Lines) /\ Line.k = k
Step == l' = l + 1 /\ UNCHANGED ev
Silent == UNCHANGED << l, ev >>

ASSUME TLCSet(1, [i \in 1..N |-> 0])      \* furthest line reached
ASSUME TLCSet(2, [i \in 1..N |-> FALSE])  \* accepted
ASSUME TLCSet(3, 0)                       \* fragments that need the KEpost deviation
ASSUME TLCSet(4, 0)                       \* silent internal conversions taken

TInit == FE!Init /\ ev \in 1..N /\ l = 1

Cap == /\ Is("cap") /\ Line.fin
       /\ FE!Capture(Line.Z, Line.A, Line.E, Line.p, Line.win) /\ Step
Pre == /\ Is("pre")
       /\ FE!EmitPre(Line.e, Line.d, Line.p) /\ Step
Sci == /\ Is("sci")
       /\ FE!Scission(Line.L, Line.H, Line.npre) /\ Step
Neu == /\ Is("n")
       /\ FE!EmitN(Line.f, Line.ec, Line.el, Line.cd, Line.d, Line.pc, Line.p, Line.ok) /\ Step
GamC == /\ Is("g")
        /\ FE!EmitG(Line.f, Line.e, Line.d, Line.pabs, Line.t) /\ Step
GamE == /\ Is("g")
        /\ fr[Line.f].st = "cont"
        /\ \E k \in 1..Len(FE!Res(Line.f)) : FE!EmitGTo(Line.f, k, Line.e, Line.d, Line.pabs, Line.t)
        /\ Step
GamD == /\ Is("g")
        /\ fr[Line.f].st = "disc"
        /\ \E t \in 1..fr[Line.f].lev - 1 : FE!DiscG(Line.f, t, Line.e, Line.d, Line.pabs, Line.t)
        /\ Step
Set == /\ Is("set")
       /\ FE!Settle(Line.f, Line.nu, Line.ng, Line.p, Line.ke) /\ Step
       /\ FE!On("nkin") /\ ~FE!KEpostExact(Line.f, Line.ke) => TLCSet(3, TLCGet(3) + 1)
Fin == l > Len(Lines) /\ FE!Finish /\ Silent /\ TLCSet(2, [TLCGet(2) EXCEPT ![ev] = TRUE])

Quiet == /\ l <= Len(Lines) /\ Line.k \in {"g", "set"}
         /\ Silent
         /\ LET f == Line.f IN
              \/ fr[f].st = "cont" /\ \E k \in 1..Len(FE!Res(f)) : FE!EnterLevel(f, k) \/ FE!StartLow(f, k)
              \/ fr[f].st = "disc" /\ (\E t \in 1..fr[f].lev - 1 : FE!DiscIC(f, t)) /\ TLCSet(4, TLCGet(4) + 1)

TNext == Cap \/ Pre \/ Sci \/ Neu \/ GamC \/ GamE \/ GamD \/ Set \/ Fin \/ Quiet
TSpec == TInit /\ [][TNext]_tvars

Track == IF TLCGet(1)[ev] < l THEN TLCSet(1, [TLCGet(1) EXCEPT ![ev] = l]) ELSE TRUE

Rejected == {i \in 1..N : ~TLCGet(2)[i]}
Report == /\ PrintT(<< "REJECTED", Rejected, [i \in Rejected |-> TLCGet(1)[i]] >>)
          /\ PrintT(<< "KEPOST", TLCGet(3) >>)
          /\ PrintT(<< "CONVERSIONS", TLCGet(4) >>)
Accepted == Report /\ Rejected = {}
=============================================================================
